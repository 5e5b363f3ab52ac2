#ifndef SHIM_MRI_PACKET_H_
#define SHIM_MRI_PACKET_H_
#include <buffer.h>
#endif
