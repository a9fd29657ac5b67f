// h_reader with the sequences of avgen.hpp, which need FFmpeg's libraries.
#define WITH_AV
#include "h_reader.cpp"
