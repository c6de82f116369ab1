#pragma once
#define __LITTLE_ENDIAN_ 1234
#if defined(__BYTE_ORDER__) && (__BYTE_ORDER__ == __ORDER_BIG_ENDIAN__)
#define __BYTE_ORDER 4321
#else
#define __BYTE_ORDER 1234
#endif
#define __FLOAT_WORD_ORDER __BYTE_ORDER
