// The messages, built field by field.
#ifndef VERIF_DRIVER_MSGS_H
#define VERIF_DRIVER_MSGS_H
#include "modbus/messages/ReadCoilsRequest.h"
#include "modbus/messages/ReadCoilsResponse.h"
#include "modbus/messages/ReadDiscreteInputsRequest.h"
#include "modbus/messages/ReadDiscreteInputsResponse.h"
#include "modbus/messages/ReadHoldingRegistersRequest.h"
#include "modbus/messages/ReadHoldingRegistersResponse.h"
#include "modbus/messages/ReadInputRegistersRequest.h"
#include "modbus/messages/ReadInputRegistersResponse.h"
#include "modbus/messages/WriteSingleCoilRequest.h"
#include "modbus/messages/WriteSingleCoilResponse.h"
#include "modbus/messages/WriteSingleRegisterRequest.h"
#include "modbus/messages/WriteSingleRegisterResponse.h"
#include "modbus/messages/WriteMultipleCoilsRequest.h"
#include "modbus/messages/WriteMultipleCoilsResponse.h"
#include "modbus/messages/WriteMultipleRegistersRequest.h"
#include "modbus/messages/WriteMultipleRegistersResponse.h"
using namespace modbus;
inline void setqty(ReadCoilsRequest& q, uint16_t n) { q.qty_of_bits = n; }
inline void setqty(ReadDiscreteInputsRequest& q, uint16_t n) { q.qty_of_bits = n; }
inline void setqty(ReadHoldingRegistersRequest& q, uint16_t n) { q.qty_of_registers = n; }
inline void setqty(ReadInputRegistersRequest& q, uint16_t n) { q.qty_of_registers = n; }
template <typename R> R readreq(uint16_t a, uint16_t n) { R q; q.starting_address = a; setqty(q, n); return q; }
inline WriteSingleCoilRequest wcoil(uint16_t a, bool v) { WriteSingleCoilRequest q; q.value.address = a; q.value.value = v; return q; }
inline WriteSingleRegisterRequest wreg(uint16_t a, uint16_t v) { WriteSingleRegisterRequest q; q.value.address = a; q.value.value = v; return q; }
inline WriteMultipleCoilsRequest wcoils(uint16_t a) { WriteMultipleCoilsRequest q; q.starting_address = a; return q; }
inline WriteMultipleRegistersRequest wregs(uint16_t a) { WriteMultipleRegistersRequest q; q.starting_address = a; return q; }
#endif
