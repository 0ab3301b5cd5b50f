/* Declarations of the CSPICE functions that huira calls: CSPICE is not installed here. */
#pragma once
typedef char SpiceChar;
typedef double SpiceDouble;
typedef int SpiceInt;
typedef int SpiceBoolean;
typedef const char ConstSpiceChar;
typedef const double ConstSpiceDouble;
#ifdef __cplusplus
extern "C" {
#endif
SpiceBoolean failed_c(void);
void getmsg_c(ConstSpiceChar* option, SpiceInt length, SpiceChar* message);
void reset_c(void);
void erract_c(ConstSpiceChar* op, SpiceInt length, SpiceChar* action);
void errprt_c(ConstSpiceChar* op, SpiceInt length, SpiceChar* list);
void furnsh_c(ConstSpiceChar* file);
void str2et_c(ConstSpiceChar* text, SpiceDouble* et);
void deltet_c(SpiceDouble epoch, ConstSpiceChar* type, SpiceDouble* delta);
SpiceDouble unitim_c(SpiceDouble epoch, ConstSpiceChar* insys, ConstSpiceChar* outsys);
void timout_c(SpiceDouble et, ConstSpiceChar* picture, SpiceInt length, SpiceChar* output);
void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar* frame, ConstSpiceChar* correction, ConstSpiceChar* observer, SpiceDouble state[6], SpiceDouble* light_time);
void pxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble matrix[3][3]);
void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble matrix[6][6]);
void xf2rav_c(ConstSpiceDouble xform[6][6], SpiceDouble matrix[3][3], SpiceDouble velocity[3]);
void conics_c(ConstSpiceDouble elements[8], SpiceDouble et, SpiceDouble state[6]);
#ifdef __cplusplus
}
#endif
