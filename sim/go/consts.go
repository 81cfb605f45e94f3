package main

// #include "concordia.h"
import "C"
import cnd "github.com/Toyz/concordia/go"

var consts = []struct {
	name string
	goV  int
	cV   int
}{
	{"OpNoop", int(cnd.OpNoop), C.OP_NOOP},
	{"OpSetEndianLe", int(cnd.OpSetEndianLe), C.OP_SET_ENDIAN_LE},
	{"OpSetEndianBe", int(cnd.OpSetEndianBe), C.OP_SET_ENDIAN_BE},
	{"OpEnterStruct", int(cnd.OpEnterStruct), C.OP_ENTER_STRUCT},
	{"OpExitStruct", int(cnd.OpExitStruct), C.OP_EXIT_STRUCT},
	{"OpMetaVersion", int(cnd.OpMetaVersion), C.OP_META_VERSION},
	{"OpCtxQuery", int(cnd.OpCtxQuery), C.OP_CTX_QUERY},
	{"OpMetaName", int(cnd.OpMetaName), C.OP_META_NAME},
	{"OpIoU8", int(cnd.OpIoU8), C.OP_IO_U8},
	{"OpIoU16", int(cnd.OpIoU16), C.OP_IO_U16},
	{"OpIoU32", int(cnd.OpIoU32), C.OP_IO_U32},
	{"OpIoU64", int(cnd.OpIoU64), C.OP_IO_U64},
	{"OpIoI8", int(cnd.OpIoI8), C.OP_IO_I8},
	{"OpIoI16", int(cnd.OpIoI16), C.OP_IO_I16},
	{"OpIoI32", int(cnd.OpIoI32), C.OP_IO_I32},
	{"OpIoI64", int(cnd.OpIoI64), C.OP_IO_I64},
	{"OpIoF32", int(cnd.OpIoF32), C.OP_IO_F32},
	{"OpIoF64", int(cnd.OpIoF64), C.OP_IO_F64},
	{"OpIoBool", int(cnd.OpIoBool), C.OP_IO_BOOL},
	{"OpIoBitU", int(cnd.OpIoBitU), C.OP_IO_BIT_U},
	{"OpIoBitI", int(cnd.OpIoBitI), C.OP_IO_BIT_I},
	{"OpIoBitBool", int(cnd.OpIoBitBool), C.OP_IO_BIT_BOOL},
	{"OpAlignPad", int(cnd.OpAlignPad), C.OP_ALIGN_PAD},
	{"OpAlignFill", int(cnd.OpAlignFill), C.OP_ALIGN_FILL},
	{"OpEnterBitMode", int(cnd.OpEnterBitMode), C.OP_ENTER_BIT_MODE},
	{"OpExitBitMode", int(cnd.OpExitBitMode), C.OP_EXIT_BIT_MODE},
	{"OpStrNull", int(cnd.OpStrNull), C.OP_STR_NULL},
	{"OpStrPreU8", int(cnd.OpStrPreU8), C.OP_STR_PRE_U8},
	{"OpStrPreU16", int(cnd.OpStrPreU16), C.OP_STR_PRE_U16},
	{"OpStrPreU32", int(cnd.OpStrPreU32), C.OP_STR_PRE_U32},
	{"OpArrFixed", int(cnd.OpArrFixed), C.OP_ARR_FIXED},
	{"OpArrPreU8", int(cnd.OpArrPreU8), C.OP_ARR_PRE_U8},
	{"OpArrPreU16", int(cnd.OpArrPreU16), C.OP_ARR_PRE_U16},
	{"OpArrPreU32", int(cnd.OpArrPreU32), C.OP_ARR_PRE_U32},
	{"OpArrEnd", int(cnd.OpArrEnd), C.OP_ARR_END},
	{"OpRawBytes", int(cnd.OpRawBytes), C.OP_RAW_BYTES},
	{"OpArrEof", int(cnd.OpArrEof), C.OP_ARR_EOF},
	{"OpArrDynamic", int(cnd.OpArrDynamic), C.OP_ARR_DYNAMIC},
	{"OpConstCheck", int(cnd.OpConstCheck), C.OP_CONST_CHECK},
	{"OpConstWrite", int(cnd.OpConstWrite), C.OP_CONST_WRITE},
	{"OpRangeCheck", int(cnd.OpRangeCheck), C.OP_RANGE_CHECK},
	{"OpScaleLin", int(cnd.OpScaleLin), C.OP_SCALE_LIN},
	{"OpCRC16", int(cnd.OpCRC16), C.OP_CRC_16},
	{"OpTransAdd", int(cnd.OpTransAdd), C.OP_TRANS_ADD},
	{"OpTransSub", int(cnd.OpTransSub), C.OP_TRANS_SUB},
	{"OpTransMul", int(cnd.OpTransMul), C.OP_TRANS_MUL},
	{"OpTransDiv", int(cnd.OpTransDiv), C.OP_TRANS_DIV},
	{"OpCRC32", int(cnd.OpCRC32), C.OP_CRC_32},
	{"OpMarkOptional", int(cnd.OpMarkOptional), C.OP_MARK_OPTIONAL},
	{"OpEnumCheck", int(cnd.OpEnumCheck), C.OP_ENUM_CHECK},
	{"OpTransPoly", int(cnd.OpTransPoly), C.OP_TRANS_POLY},
	{"OpTransSpline", int(cnd.OpTransSpline), C.OP_TRANS_SPLINE},
	{"OpJumpIfNot", int(cnd.OpJumpIfNot), C.OP_JUMP_IF_NOT},
	{"OpSwitch", int(cnd.OpSwitch), C.OP_SWITCH},
	{"OpJump", int(cnd.OpJump), C.OP_JUMP},
	{"OpSwitchTable", int(cnd.OpSwitchTable), C.OP_SWITCH_TABLE},
	{"OpLoadCtx", int(cnd.OpLoadCtx), C.OP_LOAD_CTX},
	{"OpStoreCtx", int(cnd.OpStoreCtx), C.OP_STORE_CTX},
	{"OpPushImm", int(cnd.OpPushImm), C.OP_PUSH_IMM},
	{"OpPop", int(cnd.OpPop), C.OP_POP},
	{"OpSwap", int(cnd.OpSwap), C.OP_SWAP},
	{"OpDup", int(cnd.OpDup), C.OP_DUP},
	{"OpEmit", int(cnd.OpEmit), C.OP_EMIT},
	{"OpAdd", int(cnd.OpAdd), C.OP_ADD},
	{"OpSub", int(cnd.OpSub), C.OP_SUB},
	{"OpMul", int(cnd.OpMul), C.OP_MUL},
	{"OpDiv", int(cnd.OpDiv), C.OP_DIV},
	{"OpMod", int(cnd.OpMod), C.OP_MOD},
	{"OpNeg", int(cnd.OpNeg), C.OP_NEG},
	{"OpFadd", int(cnd.OpFadd), C.OP_FADD},
	{"OpFsub", int(cnd.OpFsub), C.OP_FSUB},
	{"OpFmul", int(cnd.OpFmul), C.OP_FMUL},
	{"OpFdiv", int(cnd.OpFdiv), C.OP_FDIV},
	{"OpFneg", int(cnd.OpFneg), C.OP_FNEG},
	{"OpSin", int(cnd.OpSin), C.OP_SIN},
	{"OpCos", int(cnd.OpCos), C.OP_COS},
	{"OpTan", int(cnd.OpTan), C.OP_TAN},
	{"OpSqrt", int(cnd.OpSqrt), C.OP_SQRT},
	{"OpPow", int(cnd.OpPow), C.OP_POW},
	{"OpLog", int(cnd.OpLog), C.OP_LOG},
	{"OpAbs", int(cnd.OpAbs), C.OP_ABS},
	{"OpItof", int(cnd.OpItof), C.OP_ITOF},
	{"OpFtoi", int(cnd.OpFtoi), C.OP_FTOI},
	{"OpEqF", int(cnd.OpEqF), C.OP_EQ_F},
	{"OpNeqF", int(cnd.OpNeqF), C.OP_NEQ_F},
	{"OpGtF", int(cnd.OpGtF), C.OP_GT_F},
	{"OpLtF", int(cnd.OpLtF), C.OP_LT_F},
	{"OpGteF", int(cnd.OpGteF), C.OP_GTE_F},
	{"OpLteF", int(cnd.OpLteF), C.OP_LTE_F},
	{"OpBitAnd", int(cnd.OpBitAnd), C.OP_BIT_AND},
	{"OpBitOr", int(cnd.OpBitOr), C.OP_BIT_OR},
	{"OpBitXor", int(cnd.OpBitXor), C.OP_BIT_XOR},
	{"OpBitNot", int(cnd.OpBitNot), C.OP_BIT_NOT},
	{"OpShl", int(cnd.OpShl), C.OP_SHL},
	{"OpShr", int(cnd.OpShr), C.OP_SHR},
	{"OpEq", int(cnd.OpEq), C.OP_EQ},
	{"OpNeq", int(cnd.OpNeq), C.OP_NEQ},
	{"OpGt", int(cnd.OpGt), C.OP_GT},
	{"OpLt", int(cnd.OpLt), C.OP_LT},
	{"OpGte", int(cnd.OpGte), C.OP_GTE},
	{"OpLte", int(cnd.OpLte), C.OP_LTE},
	{"OpLogAnd", int(cnd.OpLogAnd), C.OP_LOG_AND},
	{"OpLogOr", int(cnd.OpLogOr), C.OP_LOG_OR},
	{"OpLogNot", int(cnd.OpLogNot), C.OP_LOG_NOT},
	{"ErrOk", int(cnd.ErrOk), C.CND_ERR_OK},
	{"ErrOOB", int(cnd.ErrOOB), C.CND_ERR_OOB},
	{"ErrInvalidOp", int(cnd.ErrInvalidOp), C.CND_ERR_INVALID_OP},
	{"ErrValidation", int(cnd.ErrValidation), C.CND_ERR_VALIDATION},
	{"ErrCallback", int(cnd.ErrCallback), C.CND_ERR_CALLBACK},
	{"ErrStackOverflow", int(cnd.ErrStackOverflow), C.CND_ERR_STACK_OVERFLOW},
	{"ErrStackUnderflow", int(cnd.ErrStackUnderflow), C.CND_ERR_STACK_UNDERFLOW},
	{"ErrCRCMismatch", int(cnd.ErrCRCMismatch), C.CND_ERR_CRC_MISMATCH},
	{"ErrArithmetic", int(cnd.ErrArithmetic), C.CND_ERR_ARITHMETIC},
	{"ModeEncode", int(cnd.ModeEncode), C.CND_MODE_ENCODE},
	{"ModeDecode", int(cnd.ModeDecode), C.CND_MODE_DECODE},
}
