/* the 32-bit field arithmetic of the curve files, compiled under other names */
#define PEDANTIC
#include ECPFILE
