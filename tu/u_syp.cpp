// Verification unit: evaluation of parsed expressions.
#include "FFInt.cpp"
#include "ReconstHelper.cpp"
#include "ShuntingYardParser.cpp"
template std::vector<firefly::FFInt> firefly::ShuntingYardParser::evaluate<firefly::FFInt>(const std::vector<firefly::FFInt>&) const;
template std::vector<firefly::FFInt> firefly::ShuntingYardParser::evaluate_pre<firefly::FFInt>(const std::vector<firefly::FFInt>&) const noexcept;
template std::vector<firefly::FFInt> firefly::ShuntingYardParser::evaluate_pre_2<firefly::FFInt>(const std::vector<firefly::FFInt>&) const noexcept;
