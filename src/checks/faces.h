// independent table: which of the sixteen staggered types sit on an x/y/z face (1) rather than at the cell centre (0)
#ifndef VERIF_FACES_H
#define VERIF_FACES_H
#include "sops.h"
template <class F> struct Face;
#define FACE(T, x, y, z) template <> struct Face<SpatialOps::structured::T> { static int at(int d) { static const int v[3] = {x, y, z}; return v[d]; } };
FACE(SVolField, 0, 0, 0) FACE(SSurfXField, 1, 0, 0) FACE(SSurfYField, 0, 1, 0) FACE(SSurfZField, 0, 0, 1)
FACE(XVolField, 1, 0, 0) FACE(XSurfXField, 0, 0, 0) FACE(XSurfYField, 1, 1, 0) FACE(XSurfZField, 1, 0, 1)
FACE(YVolField, 0, 1, 0) FACE(YSurfXField, 1, 1, 0) FACE(YSurfYField, 0, 0, 0) FACE(YSurfZField, 0, 1, 1)
FACE(ZVolField, 0, 0, 1) FACE(ZSurfXField, 1, 0, 1) FACE(ZSurfYField, 0, 1, 1) FACE(ZSurfZField, 0, 0, 0)
#undef FACE
#endif
