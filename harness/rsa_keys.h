#pragma once
#include <memory>
#include <span>
#include <string>
#include <vector>
struct KeyBase {
  using In = std::span<const uint8_t>;
  virtual ~KeyBase() {}
  virtual std::vector<uint8_t> sign(const std::string& alg, In m) = 0;
  virtual bool verify(const std::string& alg, In m, In s) = 0;
  virtual std::vector<uint8_t> signPss(const std::string& alg, In m, In salt) = 0;
  virtual bool verifyPss(const std::string& alg, In m, In s) = 0;
};
