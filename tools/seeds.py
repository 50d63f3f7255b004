C = "internal/engine/commands/"
T = "internal/common/type/"
S("C09-div-alias", "C09", [(C+"arithmetic.go", "	quotient := &big.Rat{}\n	quotient.Set(rational.Number(v[0]))\n", "	quotient := rational.Number(v[0])\n")],
  "the dividend held in a variable and used again", "division changes its first operand",
  oh=("define x: add 17 0\ndefine y: div $x 5\necho $x $y\n", "17 17/5\nexit 0\n"))
S("C10-le-chain", "C10", [(C+"relational.go", "		if prev.Cmp(curr) > 0 {\n			return pair.Null\n		}\n\n		if rest == pair.Null {\n			return sym.True\n		}\n\n		prev = curr\n", "		if prev.Cmp(curr) > 0 {\n			return pair.Null\n		}\n\n		if rest == pair.Null {\n			return sym.True\n		}\n\n")],
  "three or more operands where a later neighbouring pair is out of order but not relative to the first", "le? compares with the first operand instead of the neighbour",
  oh=("if (le? 1 3 2) {\n    echo bad\n} else {\n    echo fine\n}\n", "fine\nexit 0\n"))
S("C11-tail-length", "C11", [(T+"list/list.go", "	} else if index >= length {\n		msg", "	} else if index > length {\n		msg")],
  "an index equal to the length of the list", "get just past the end yields something instead of the default",
  oh=("define l: list a b\necho (l get 2 none)\necho (l get 3 none)\n", "none\nnone\nexit 0\n"))
S("C12-extend-share", "C12", [(T+"list/list.go", "	for _, list := range lists {\n		if list == nil {", "	if len(lists) == 1 && lists[0] != nil && lists[0] != start {\n		pair.SetCdr(end, lists[0])\n\n		return start\n	}\n\n	for _, list := range lists {\n		if list == nil {")],
  "changing the argument of extend afterwards", "extend shares structure with its argument",
  oh=("define a: list 1\ndefine b: list 2\na extend $b\nb append 3\necho (a length)\n", "2\nexit 0\n"))
S("C13-trim-right", "C13", [(C+"string.go", "	return str.New(strings.TrimSuffix(common.String(v[0]), common.String(v[1])))", "	s, suffix := common.String(v[0]), common.String(v[1])\n	if len(suffix) == 1 {\n		return str.New(strings.TrimRight(s, suffix))\n	}\n\n	return str.New(strings.TrimSuffix(s, suffix))")],
  "a one-character suffix that occurs more than once at the end", "trim-suffix removes more than the suffix",
  oh=("define s \"a--\"\necho (str trim-suffix $s \"-\")\n", "a-\nexit 0\n"))
S("C07-num-float", "C07", [(T+"num/num.go", "	return Is(c) && n", "	if Is(c) {\n		a, _ := n.Rat().Float64()\n		b, _ := To(c).Rat().Float64()\n\n		return a == b\n	}\n\n	return Is(c) && n")],
  "two numbers that differ by less than a double can tell", "numbers are compared after rounding",
  oh=("define n: number 9007199254740992\nif (equal? $n (add $n 1)) {\n    echo same\n} else {\n    echo different\n}\n", "different\nexit 0\n"))
