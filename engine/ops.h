// expression operators shared by the runtime and the solver process
#pragma once
#include <cstdint>
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;
enum Op : u8 {
  OP_CONST = 0, OP_ADD = 1, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
  OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM,
  OP_UMIN, OP_UMAX, OP_SMIN, OP_SMAX, OP_USUBSAT, OP_UADDSAT,
  OP_UADDO, OP_USUBO, OP_UMULO, OP_SADDO, OP_SSUBO, OP_SMULO, OP_FSHL, OP_FMIN, OP_FMAX, OP_COPYSIGN,
  OP_VAR = 64, OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE, OP_ZEXT, OP_SEXT, OP_EXTRACT, OP_CONCAT, OP_ITE, OP_TABLE,
  OP_FEQ, OP_FLT, OP_FLE, OP_FUNO, OP_FP1, OP_FPCONV
};
enum COp : unsigned { C_ZEXT = 1, C_SEXT, C_TRUNC, C_SITOFP, C_UITOFP, C_FPTOSI, C_FPTOUI, C_FPEXT, C_FPTRUNC, C_BITCAST,
  C_FNEG, C_FABS, C_FLOOR, C_CEIL, C_TRUNCF, C_ROUND, C_RINT, C_BSWAP, C_SQRT, C_ABS, C_ISFP, C_CTPOP };


// wire format of one expression node (kids refer to earlier nodes of the same message)
struct WNode { u8 op, w, nk, pad; u32 k[3]; u64 val; };   // OP_TABLE: val = offset (in u64s) into the table area: n, keys..., vals...
struct WReq { u32 magic, nodes, roots, tabs; u64 seq; u32 fp, rlimit; };
struct WResp { u32 magic; int32_t result; u64 seq; u8 model[256]; u8 has[256]; };
