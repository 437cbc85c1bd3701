// The archives are not instantiated in the bitcode (clang does not compile the registration of the systems).
#pragma once
#ifndef CEREAL_REGISTER_TYPE
#define CEREAL_REGISTER_TYPE(...)
#endif
