// one program of the system, its main() under another name
#define main s01_extraction_main
#include "extraction/app/feature_extraction.cpp"
