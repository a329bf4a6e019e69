// C19: one call of the key generator (the threads are put together by engine/c19.py)
#include <curves/KeyGenerator.hpp>
extern "C" size_t h_next() { return curves::KeyGenerator::getNextKey(); }
