#include "rsa_key_impl.h"
std::unique_ptr<KeyBase> makeKey1024(const std::vector<uint8_t>& n, const std::vector<uint8_t>& e, const std::vector<uint8_t>& d) { return std::make_unique<KeyT<1024, true>>(n, e, d); }
