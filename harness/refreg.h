#pragma once
#include <string>
#include <vector>
#include "iface.h"
Bytes refDigest(const std::string &ref, const Params &p, const std::vector<Bytes> &items);
Bytes refDigestRaw(const std::string &ref, const uint8_t *p, uint64_t n);   // unparameterised algorithms only
void refPreload(uint64_t bytes);    // message bytes taken as already counted; 0 = normal
std::string refSelfTest();          // "" when every reference reproduces its published vectors
std::string toHex(const Bytes &);
