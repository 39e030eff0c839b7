"""C13: reading and printing of expressions (ShuntingYardParser::parse, the printers)."""
from common import CORE
from cxx2why import FSpec, Loop
from cxxast import Ty
BS = dict(ff="abs", opts=dict(strseq=True, fields={"ShuntingYardParser": ["keep_rpn"]}), use=["ffield.Field", "cxxstr.Str", "cxxmap.FMap", "shunt.Shunt", "shunt.Chars"])
BP = dict(BS, use=BS["use"] + ["shuntg.Whole"])
P = "ShuntingYardParser::"
C_ = [FSpec(P + "is_operator(i8)", ["c"], [], ["result <-> opr c"], **BS),
      FSpec(P + "is_variable(i8)", ["c"], [], ["result <-> letter c"], **BS),
      FSpec(P + "is_operand(i8)", ["c"], [], ["result <-> word c /\\ not letter c"], **BS),
      FSpec(P + "get_weight(i8)", ["c"], [], ["result = wgt c"], **BP)]
GROUPS = [dict(unit="u_syp.cpp", specs=C_)]
HARNESS = [dict(src="c13.cpp", repo=CORE, budget=(6, 90))]
BOUNDED = ["ShuntingYardParser::parse (its loops; the machine of theories/shunt.mlw it is meant to be is proved to read the grammar)", "ShuntingYardParser::validate (runs of signs, doubled parentheses)", "ShuntingYardParser::parse_collection, the constructors, parse_function, add_otf (files, blanks)", "Polynomial, PolynomialFF, RationalFunction, RationalFunctionFF: to_string, generate_horner", "generate_horner_rn, generate_horner_ff, generate_horner_mon"]
NOTE = "Contracts on the helpers of parse (is_operator, is_operand, is_variable, get_weight); a lemma by induction over expressions that the shunting-yard machine with these classes and weights turns the text of every expression of the grammar, of any size, into its reverse-Polish form. That parse runs this machine, the normalisation before it, and all printers are decided by comparison with an independent reader: every text of up to seven tokens, wrapped and random longer ones, everything the printers write (bounded)."
ASSUMPTIONS = ["std::string is a sequence of characters, terminated by a null character, with the standard's meaning of insert, erase, front, back, push_back; a char is signed and has 8 bits; std::stack is last-in-first-out.",
               "Texts are those of the grammar of shuntg.Expr: exponents are operands or parenthesised, not followed by a further power; negative exponents are single operands; signs stand at the beginning of the text or of a parenthesis. What other texts denote is not stated.",
               "The step of the machine (theories/shunt.mlw) is a statement of what parse does with a character, compared with the code by the harness only (bounded).",
               "validate() is given by the harness only: the text parse() sees has no blanks and no runs of signs.",
               "That the value of a reverse-Polish form is computed correctly is C12."]
LEVEL = "exploration"
