// C34: small data directories
#define SMALL
#include "c34_reports.cpp"
