seed("C01-div-pow2", "C01", "a negative dividend that is no multiple, divided by a literal power of two", "div rounds towards minus infinity instead of zero",
 [("expr.cpp", '''	return builder.CreateSDiv(l, r, "divtmp");
    case Token::Mod:''', '''	if (auto c = llvm::dyn_cast<llvm::ConstantInt>(r))
	{
	    if (c->getValue().isStrictlyPositive() && c->getValue().isPowerOf2() && c->getValue().ugt(8))
	    {
		return builder.CreateAShr(l, c->getValue().logBase2(), "divtmp");
	    }
	}
	return builder.CreateSDiv(l, r, "divtmp");
    case Token::Mod:''')],
 pas="program demo; var a : integer; begin read(a); writeln(a div 16, ' ', a div 2, ' ', a div 10) end.\n", inp="-17\n", exp="-1 -8 -1\n")
seed("C02-char-le", "C02", "a char above 127 compared with <= or >= when the other operand is a literal", "character comparison with a literal is signed",
 [("expr.cpp", '''	if (isUnsigned)
	{
	    return builder.CreateICmpULE(l, r, "le");''', '''	if (isUnsigned && !(llvm::isa<llvm::ConstantInt>(r) && r->getType()->isIntegerTy(8)))
	{
	    return builder.CreateICmpULE(l, r, "le");''')],
 pas="program demo; var c : char; begin read(c); if c <= 'z' then writeln('low') else writeln('high') end.\n", inp="\xe9\n", exp="high\n")
seed("C04-downto-unsigned", "C04", "a downto loop over a char variable that runs exactly once", "the body of a one-iteration downto loop over an unsigned type is skipped",
 [("expr.cpp", '''	    endCond = builder.CreateICmpUGE(curVar, endV, "loopcond");''', '''	    endCond = builder.CreateICmpUGT(curVar, endV, "loopcond");''')],
 pas="program demo; var c, lo : char; n : integer; begin read(lo); n := 0; for c := 'd' downto lo do n := n + 1; writeln(n) end.\n", inp="d\n", exp="1\n")
