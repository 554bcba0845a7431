static const unsigned OP_Add = 13;
static const unsigned OP_Sub = 15;
static const unsigned OP_Mul = 17;
static const unsigned OP_UDiv = 19;
static const unsigned OP_SDiv = 20;
static const unsigned OP_URem = 22;
static const unsigned OP_SRem = 23;
static const unsigned OP_And = 28;
static const unsigned OP_Or = 29;
static const unsigned OP_Xor = 30;
static const unsigned OP_Shl = 25;
static const unsigned OP_LShr = 26;
static const unsigned OP_AShr = 27;
static const unsigned OP_FADD = 14;
static const unsigned OP_FSUB = 16;
static const unsigned OP_FMUL = 18;
static const unsigned OP_FDIV = 21;
static const unsigned OP_FREM = 24;
static const unsigned OP_Trunc = 38;
static const unsigned OP_ZExt = 39;
static const unsigned OP_SExt = 40;
static const unsigned OP_FPToUI = 41;
static const unsigned OP_FPToSI = 42;
static const unsigned OP_UIToFP = 43;
static const unsigned OP_SIToFP = 44;
static const unsigned OP_FPTrunc = 45;
static const unsigned OP_FPExt = 46;
static const unsigned OP_PtrToInt = 47;
static const unsigned OP_IntToPtr = 48;
static const unsigned OP_BitCast = 49;
// icmp eq=32 ne=33 ugt=34 slt=40; fcmp oeq=1 ogt=2 oge=3 olt=4 ole=5 one=6
