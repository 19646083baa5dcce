// one program of the system, its main() under another name
#define main s01_mapping_main
#include "mapping/src/mapping.cpp"
