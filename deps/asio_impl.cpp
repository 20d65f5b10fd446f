// asio's own definitions, once (ASIO_SEPARATE_COMPILATION), with the flavour's instrumentation.
#include <asio/impl/src.hpp>
