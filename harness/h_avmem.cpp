// h_reader with failing allocations in the readers which use FFmpeg and MagickWand, and in these libraries.
#define WITH_AV
#define WITH_MEM
#include "h_reader.cpp"
