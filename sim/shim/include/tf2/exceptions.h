#pragma once
#include <stdexcept>
#include <string>
namespace tf2
{
class TransformException : public std::runtime_error { public: explicit TransformException(const std::string & s) : std::runtime_error(s) {} };
class ConnectivityException : public TransformException { public: using TransformException::TransformException; };
class LookupException : public TransformException { public: using TransformException::TransformException; };
class ExtrapolationException : public TransformException { public: using TransformException::TransformException; };
class InvalidArgumentException : public TransformException { public: using TransformException::TransformException; };
class TimeoutException : public TransformException { public: using TransformException::TransformException; };
}
