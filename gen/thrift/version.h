#ifndef THRIFT_VERSION
#define THRIFT_VERSION "0.9.0"
#endif
