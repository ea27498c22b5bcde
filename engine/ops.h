// Operation codes shared by the instrumentation tool and the runtime.
#pragma once
enum SymOp {
  // integer binary
  OP_ADD = 1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR,
  OP_AND, OP_OR, OP_XOR,
  OP_UMIN, OP_UMAX, OP_SMIN, OP_SMAX, OP_USUBSAT, OP_UADDSAT, OP_SSUBSAT, OP_SADDSAT,
  // floating-point binary
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FMIN, OP_FMAX, OP_COPYSIGN,
  // integer comparisons
  OP_EQ, OP_NE, OP_UGT, OP_UGE, OP_ULT, OP_ULE, OP_SGT, OP_SGE, OP_SLT, OP_SLE,
  // casts
  OP_TRUNC, OP_ZEXT, OP_SEXT, OP_FPTRUNC, OP_FPEXT, OP_FPTOUI, OP_FPTOSI, OP_UITOFP, OP_SITOFP,
  OP_BITCAST_F2I, OP_BITCAST_I2F,
  // unary
  OP_FNEG, OP_FABS, OP_SQRT, OP_FLOOR, OP_CEIL, OP_FTRUNC, OP_ROUND, OP_RINT,
  OP_CTPOP, OP_CTLZ, OP_CTTZ, OP_BSWAP, OP_ABS,
  // overflow predicates
  OP_UADDO, OP_SADDO, OP_USUBO, OP_SSUBO, OP_UMULO, OP_SMULO,
  // libm functions (decided by enumerating all feasible arguments)
  OP_EXP, OP_EXP2, OP_LOG, OP_LOG2, OP_LOG10, OP_SIN, OP_COS, OP_TAN, OP_ATAN, OP_ACOS, OP_ASIN,
  OP_CBRT, OP_EXPM1, OP_LOG1P, OP_TANH, OP_ERF, OP_TGAMMA, OP_LGAMMA,
  OP_POW, OP_ATAN2, OP_HYPOT, OP_FMOD, OP_LDEXP, OP_NEXTAFTER
};
