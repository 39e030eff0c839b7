# library sources linked into the harnesses (everything but the two reconstruction state machines)
CORE = ["FFInt.cpp", "ReconstHelper.cpp", "utils.cpp", "RationalNumber.cpp", "PolynomialFF.cpp", "ShuntingYardParser.cpp", "BaseReconst.cpp", "FFIntVec.cpp",
        "ParserUtils.cpp", "HornerGenerator.cpp", "Monomial.cpp", "Polynomial.cpp", "RationalFunction.cpp", "RationalFunctionFF.cpp", "Poly.cpp", "FFThieleInterpolator.cpp", "gzstream.cpp"]
