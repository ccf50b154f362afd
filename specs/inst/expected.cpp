// Instantiates every member of Expected for a few value types, for the proofs of C22.
#include <string>
#include <vector>
#include "modbus/Expected.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/messages/ReadHoldingRegistersResponse.h"
namespace inst
{
using namespace modbus;
template<typename T, typename E> void one(const Expected<T>& c, const E& e)
{
    (void)c.template has_exception<E>();
    (void)c.template get_exception<E>();
    (void)Expected<T>::from_exception(e);
}
template<typename T> void all(const T& v, const Expected<T>& c, Expected<T>& d)
{
    one(c, ConnectionException{"c"});
    one(c, MalformedModbusRequestException{"m"});
    one(c, MalformedModbusResponseException{"m"});
    one(c, ModbusException{ExceptionType::Acknowledge});
    one(c, TimeoutException{});
    (void)c.template has_exception<IException>();
    (void)c.get_exception();
    (void)Expected<T>::from_exception(std::exception_ptr{});
    (void)c.get(); (void)d.get(); (void)c.is_valid();
    Expected<T> x{v}; Expected<T> y{T(v)}; Expected<T> z{x}; Expected<T> w{std::move(y)};
}
void go()
{
    int i = 0; Expected<int> a{i}; all(i, a, a);
    std::string s; Expected<std::string> b{s}; all(s, b, b);
    ReadHoldingRegistersResponse r; Expected<ReadHoldingRegistersResponse> c{r}; all(r, c, c);
}
}
