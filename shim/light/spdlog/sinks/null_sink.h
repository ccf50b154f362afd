#include "spdlog/spdlog.h"
namespace spdlog { namespace sinks { class null_sink_st : public sink {}; class null_sink_mt : public sink {}; } }
