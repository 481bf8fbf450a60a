#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>
#include <simros.hpp>
namespace pluginlib
{
struct PluginlibException : public std::runtime_error { using std::runtime_error::runtime_error; };
struct LibraryLoadException : public PluginlibException { using PluginlibException::PluginlibException; };
struct CreateClassException : public PluginlibException { using PluginlibException::PluginlibException; };
template<class T> using UniquePtr = std::unique_ptr<T>;
template<class T> class ClassLoader
{
public:
  ClassLoader(const std::string & package, const std::string & base) : pkg_(package), base_(base) {}
  std::shared_ptr<T> createSharedInstance(const std::string & n)
  {
    std::shared_ptr<void> p = simros::create_plugin(n, base_);
    if (!p) throw LibraryLoadException("According to the loaded plugin descriptions the class " + n + " with base class type " + base_ + " does not exist.");
    return std::static_pointer_cast<T>(p);
  }
  std::shared_ptr<T> createUniqueInstance(const std::string & n) { return createSharedInstance(n); }
  bool isClassAvailable(const std::string & n) { return static_cast<bool>(simros::create_plugin(n, base_)); }
private:
  std::string pkg_, base_;
};
}
