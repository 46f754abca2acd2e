// The installed pyre lacks one type trait that the headers of mito name; nothing else is supplied here.
#pragma once
#include <pyre/tensor.h>
namespace pyre::tensor::traits {
    template <class T> struct transpose { using type = decltype(pyre::tensor::transpose(std::declval<T>())); };
}
