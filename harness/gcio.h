// In-memory channel used to run both garbling roles in one process; counts what is sent.
#pragma once
#include "sym.h"
#include "emp-tool/io/io_channel.h"
class RecIO: public emp::IOChannel<RecIO> { public: unsigned char d[65536]; size_t n=0,r=0;
  void send_data_internal(const void*p,size_t k){ memcpy(d+n,p,k); n+=k; }
  void recv_data_internal(void*p,size_t k){ sym_assert(r+k<=n,"the evaluator reads only what the garbler sent"); memcpy(p,d+r,k); r+=k; } };
