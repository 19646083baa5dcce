// one program of the system, its main() under another name
#define main s01_ekf_main
#include "ekf_localizer/src/ekf_localizer_node.cpp"
