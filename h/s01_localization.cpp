// one program of the system, its main() under another name
#define main s01_localization_main
#include "localization/app/localization.cpp"
