(* generated by tool/gen_ints.py: C++ machine integer semantics; unsigned wraps, signed overflow is an obligation *)
module U8
  use int.Int
  use int.EuclideanDivision
  predicate in_u8 (x:int) = 0 <= x <= 255
  let u8_add (a b:int) : int
    requires { in_u8 a /\ in_u8 b } ensures { in_u8 result }
    ensures { a + b <= 255 -> result = a + b } ensures { a + b > 255 -> result = a + b - 256 }
  = if a + b <= 255 then a + b else a + b - 256
  let u8_sub (a b:int) : int
    requires { in_u8 a /\ in_u8 b } ensures { in_u8 result }
    ensures { a >= b -> result = a - b } ensures { a < b -> result = a - b + 256 }
  = if a >= b then a - b else a - b + 256
  let u8_neg (a:int) : int
    requires { in_u8 a } ensures { in_u8 result } ensures { a = 0 -> result = 0 } ensures { a > 0 -> result = 256 - a }
  = if a = 0 then 0 else 256 - a
  let u8_mul (a b:int) : int
    requires { in_u8 a /\ in_u8 b } ensures { in_u8 result }
    ensures { result = mod (a * b) 256 } ensures { a * b <= 255 -> result = a * b }
  = if a * b <= 255 then a * b else mod (a * b) 256
  let u8_div (a b:int) : int
    requires { in_u8 a /\ in_u8 b } requires { [@expl:division by zero] b <> 0 } ensures { in_u8 result } ensures { result = div a b }
    ensures { result * b <= a < result * b + b }
  = div a b
  let u8_rem (a b:int) : int
    requires { in_u8 a /\ in_u8 b } requires { [@expl:division by zero] b <> 0 } ensures { in_u8 result } ensures { result = mod a b }
    ensures { 0 <= result < b } ensures { a < b -> result = a }
  = mod a b
  let u8_low (a m:int) : int
    requires { in_u8 a /\ 0 < m } ensures { in_u8 result } ensures { result = mod a m } ensures { 0 <= result < m }
  = mod a m
  let u8_shr (a m:int) : int
    requires { in_u8 a /\ 0 < m } ensures { in_u8 result } ensures { result = div a m } ensures { result * m <= a < result * m + m }
  = div a m
  let u8_shl (a m:int) : int
    requires { in_u8 a /\ 0 < m } ensures { in_u8 result } ensures { result = mod (a * m) 256 } ensures { a * m <= 255 -> result = a * m }
  = mod (a * m) 256
  val any_u8 () : int ensures { in_u8 result }
  let to_u8 (x:int) : int
    ensures { in_u8 result } ensures { result = mod x 256 } ensures { in_u8 x -> result = x }
  = mod x 256
end
module I8
  use int.Int
  use int.Abs
  use int.ComputerDivision
  use int.EuclideanDivision as E
  predicate in_i8 (x:int) = -128 <= x <= 127
  let i8_add (a b:int) : int requires { [@expl:signed overflow] in_i8 (a + b) } ensures { result = a + b } = a + b
  let i8_sub (a b:int) : int requires { [@expl:signed overflow] in_i8 (a - b) } ensures { result = a - b } = a - b
  let i8_mul (a b:int) : int requires { [@expl:signed overflow] in_i8 (a * b) } ensures { result = a * b } = a * b
  let i8_neg (a:int) : int requires { [@expl:signed overflow] in_i8 (- a) } ensures { result = - a } = - a
  let i8_abs (a:int) : int requires { [@expl:signed overflow] in_i8 (- a) } ensures { result = abs a } = if a >= 0 then a else - a
  val i8_div (a b:int) : int requires { [@expl:division by zero] b <> 0 } requires { [@expl:signed overflow] in_i8 a /\ not (a = -128 /\ b = -1) }
    ensures { result = div a b } ensures { in_i8 result }
  val i8_rem (a b:int) : int requires { [@expl:division by zero] b <> 0 } requires { [@expl:signed overflow] in_i8 a /\ not (a = -128 /\ b = -1) }
    ensures { result = mod a b } ensures { in_i8 result } ensures { 0 <= a < b -> result = a } ensures { - b < a <= 0 -> result = a }
    ensures { b > 0 -> E.mod a b = if result >= 0 then result else result + b }
    ensures { b > 0 -> - b < result < b } ensures { b > 0 /\ a >= 0 -> result >= 0 } ensures { b > 0 /\ a <= 0 -> result <= 0 }
  val any_i8 () : int ensures { in_i8 result }
  let to_i8 (x:int) : int
    ensures { in_i8 result } ensures { in_i8 x -> result = x } ensures { result = E.mod (x + 128) 256 - 128 }
  = E.mod (x + 128) 256 - 128
end
module U16
  use int.Int
  use int.EuclideanDivision
  predicate in_u16 (x:int) = 0 <= x <= 65535
  let u16_add (a b:int) : int
    requires { in_u16 a /\ in_u16 b } ensures { in_u16 result }
    ensures { a + b <= 65535 -> result = a + b } ensures { a + b > 65535 -> result = a + b - 65536 }
  = if a + b <= 65535 then a + b else a + b - 65536
  let u16_sub (a b:int) : int
    requires { in_u16 a /\ in_u16 b } ensures { in_u16 result }
    ensures { a >= b -> result = a - b } ensures { a < b -> result = a - b + 65536 }
  = if a >= b then a - b else a - b + 65536
  let u16_neg (a:int) : int
    requires { in_u16 a } ensures { in_u16 result } ensures { a = 0 -> result = 0 } ensures { a > 0 -> result = 65536 - a }
  = if a = 0 then 0 else 65536 - a
  let u16_mul (a b:int) : int
    requires { in_u16 a /\ in_u16 b } ensures { in_u16 result }
    ensures { result = mod (a * b) 65536 } ensures { a * b <= 65535 -> result = a * b }
  = if a * b <= 65535 then a * b else mod (a * b) 65536
  let u16_div (a b:int) : int
    requires { in_u16 a /\ in_u16 b } requires { [@expl:division by zero] b <> 0 } ensures { in_u16 result } ensures { result = div a b }
    ensures { result * b <= a < result * b + b }
  = div a b
  let u16_rem (a b:int) : int
    requires { in_u16 a /\ in_u16 b } requires { [@expl:division by zero] b <> 0 } ensures { in_u16 result } ensures { result = mod a b }
    ensures { 0 <= result < b } ensures { a < b -> result = a }
  = mod a b
  let u16_low (a m:int) : int
    requires { in_u16 a /\ 0 < m } ensures { in_u16 result } ensures { result = mod a m } ensures { 0 <= result < m }
  = mod a m
  let u16_shr (a m:int) : int
    requires { in_u16 a /\ 0 < m } ensures { in_u16 result } ensures { result = div a m } ensures { result * m <= a < result * m + m }
  = div a m
  let u16_shl (a m:int) : int
    requires { in_u16 a /\ 0 < m } ensures { in_u16 result } ensures { result = mod (a * m) 65536 } ensures { a * m <= 65535 -> result = a * m }
  = mod (a * m) 65536
  val any_u16 () : int ensures { in_u16 result }
  let to_u16 (x:int) : int
    ensures { in_u16 result } ensures { result = mod x 65536 } ensures { in_u16 x -> result = x }
  = mod x 65536
end
module I16
  use int.Int
  use int.Abs
  use int.ComputerDivision
  use int.EuclideanDivision as E
  predicate in_i16 (x:int) = -32768 <= x <= 32767
  let i16_add (a b:int) : int requires { [@expl:signed overflow] in_i16 (a + b) } ensures { result = a + b } = a + b
  let i16_sub (a b:int) : int requires { [@expl:signed overflow] in_i16 (a - b) } ensures { result = a - b } = a - b
  let i16_mul (a b:int) : int requires { [@expl:signed overflow] in_i16 (a * b) } ensures { result = a * b } = a * b
  let i16_neg (a:int) : int requires { [@expl:signed overflow] in_i16 (- a) } ensures { result = - a } = - a
  let i16_abs (a:int) : int requires { [@expl:signed overflow] in_i16 (- a) } ensures { result = abs a } = if a >= 0 then a else - a
  val i16_div (a b:int) : int requires { [@expl:division by zero] b <> 0 } requires { [@expl:signed overflow] in_i16 a /\ not (a = -32768 /\ b = -1) }
    ensures { result = div a b } ensures { in_i16 result }
  val i16_rem (a b:int) : int requires { [@expl:division by zero] b <> 0 } requires { [@expl:signed overflow] in_i16 a /\ not (a = -32768 /\ b = -1) }
    ensures { result = mod a b } ensures { in_i16 result } ensures { 0 <= a < b -> result = a } ensures { - b < a <= 0 -> result = a }
    ensures { b > 0 -> E.mod a b = if result >= 0 then result else result + b }
    ensures { b > 0 -> - b < result < b } ensures { b > 0 /\ a >= 0 -> result >= 0 } ensures { b > 0 /\ a <= 0 -> result <= 0 }
  val any_i16 () : int ensures { in_i16 result }
  let to_i16 (x:int) : int
    ensures { in_i16 result } ensures { in_i16 x -> result = x } ensures { result = E.mod (x + 32768) 65536 - 32768 }
  = E.mod (x + 32768) 65536 - 32768
end
module U32
  use int.Int
  use int.EuclideanDivision
  predicate in_u32 (x:int) = 0 <= x <= 4294967295
  let u32_add (a b:int) : int
    requires { in_u32 a /\ in_u32 b } ensures { in_u32 result }
    ensures { a + b <= 4294967295 -> result = a + b } ensures { a + b > 4294967295 -> result = a + b - 4294967296 }
  = if a + b <= 4294967295 then a + b else a + b - 4294967296
  let u32_sub (a b:int) : int
    requires { in_u32 a /\ in_u32 b } ensures { in_u32 result }
    ensures { a >= b -> result = a - b } ensures { a < b -> result = a - b + 4294967296 }
  = if a >= b then a - b else a - b + 4294967296
  let u32_neg (a:int) : int
    requires { in_u32 a } ensures { in_u32 result } ensures { a = 0 -> result = 0 } ensures { a > 0 -> result = 4294967296 - a }
  = if a = 0 then 0 else 4294967296 - a
  let u32_mul (a b:int) : int
    requires { in_u32 a /\ in_u32 b } ensures { in_u32 result }
    ensures { result = mod (a * b) 4294967296 } ensures { a * b <= 4294967295 -> result = a * b }
  = if a * b <= 4294967295 then a * b else mod (a * b) 4294967296
  let u32_div (a b:int) : int
    requires { in_u32 a /\ in_u32 b } requires { [@expl:division by zero] b <> 0 } ensures { in_u32 result } ensures { result = div a b }
    ensures { result * b <= a < result * b + b }
  = div a b
  let u32_rem (a b:int) : int
    requires { in_u32 a /\ in_u32 b } requires { [@expl:division by zero] b <> 0 } ensures { in_u32 result } ensures { result = mod a b }
    ensures { 0 <= result < b } ensures { a < b -> result = a }
  = mod a b
  let u32_low (a m:int) : int
    requires { in_u32 a /\ 0 < m } ensures { in_u32 result } ensures { result = mod a m } ensures { 0 <= result < m }
  = mod a m
  let u32_shr (a m:int) : int
    requires { in_u32 a /\ 0 < m } ensures { in_u32 result } ensures { result = div a m } ensures { result * m <= a < result * m + m }
  = div a m
  let u32_shl (a m:int) : int
    requires { in_u32 a /\ 0 < m } ensures { in_u32 result } ensures { result = mod (a * m) 4294967296 } ensures { a * m <= 4294967295 -> result = a * m }
  = mod (a * m) 4294967296
  val any_u32 () : int ensures { in_u32 result }
  let to_u32 (x:int) : int
    ensures { in_u32 result } ensures { result = mod x 4294967296 } ensures { in_u32 x -> result = x }
  = mod x 4294967296
end
module I32
  use int.Int
  use int.Abs
  use int.ComputerDivision
  use int.EuclideanDivision as E
  predicate in_i32 (x:int) = -2147483648 <= x <= 2147483647
  let i32_add (a b:int) : int requires { [@expl:signed overflow] in_i32 (a + b) } ensures { result = a + b } = a + b
  let i32_sub (a b:int) : int requires { [@expl:signed overflow] in_i32 (a - b) } ensures { result = a - b } = a - b
  let i32_mul (a b:int) : int requires { [@expl:signed overflow] in_i32 (a * b) } ensures { result = a * b } = a * b
  let i32_neg (a:int) : int requires { [@expl:signed overflow] in_i32 (- a) } ensures { result = - a } = - a
  let i32_abs (a:int) : int requires { [@expl:signed overflow] in_i32 (- a) } ensures { result = abs a } = if a >= 0 then a else - a
  val i32_div (a b:int) : int requires { [@expl:division by zero] b <> 0 } requires { [@expl:signed overflow] in_i32 a /\ not (a = -2147483648 /\ b = -1) }
    ensures { result = div a b } ensures { in_i32 result }
  val i32_rem (a b:int) : int requires { [@expl:division by zero] b <> 0 } requires { [@expl:signed overflow] in_i32 a /\ not (a = -2147483648 /\ b = -1) }
    ensures { result = mod a b } ensures { in_i32 result } ensures { 0 <= a < b -> result = a } ensures { - b < a <= 0 -> result = a }
    ensures { b > 0 -> E.mod a b = if result >= 0 then result else result + b }
    ensures { b > 0 -> - b < result < b } ensures { b > 0 /\ a >= 0 -> result >= 0 } ensures { b > 0 /\ a <= 0 -> result <= 0 }
  val any_i32 () : int ensures { in_i32 result }
  let to_i32 (x:int) : int
    ensures { in_i32 result } ensures { in_i32 x -> result = x } ensures { result = E.mod (x + 2147483648) 4294967296 - 2147483648 }
  = E.mod (x + 2147483648) 4294967296 - 2147483648
end
module U64
  use int.Int
  use int.EuclideanDivision
  predicate in_u64 (x:int) = 0 <= x <= 18446744073709551615
  let u64_add (a b:int) : int
    requires { in_u64 a /\ in_u64 b } ensures { in_u64 result }
    ensures { a + b <= 18446744073709551615 -> result = a + b } ensures { a + b > 18446744073709551615 -> result = a + b - 18446744073709551616 }
  = if a + b <= 18446744073709551615 then a + b else a + b - 18446744073709551616
  let u64_sub (a b:int) : int
    requires { in_u64 a /\ in_u64 b } ensures { in_u64 result }
    ensures { a >= b -> result = a - b } ensures { a < b -> result = a - b + 18446744073709551616 }
  = if a >= b then a - b else a - b + 18446744073709551616
  let u64_neg (a:int) : int
    requires { in_u64 a } ensures { in_u64 result } ensures { a = 0 -> result = 0 } ensures { a > 0 -> result = 18446744073709551616 - a }
  = if a = 0 then 0 else 18446744073709551616 - a
  let u64_mul (a b:int) : int
    requires { in_u64 a /\ in_u64 b } ensures { in_u64 result }
    ensures { result = mod (a * b) 18446744073709551616 } ensures { a * b <= 18446744073709551615 -> result = a * b }
  = if a * b <= 18446744073709551615 then a * b else mod (a * b) 18446744073709551616
  let u64_div (a b:int) : int
    requires { in_u64 a /\ in_u64 b } requires { [@expl:division by zero] b <> 0 } ensures { in_u64 result } ensures { result = div a b }
    ensures { result * b <= a < result * b + b }
  = div a b
  let u64_rem (a b:int) : int
    requires { in_u64 a /\ in_u64 b } requires { [@expl:division by zero] b <> 0 } ensures { in_u64 result } ensures { result = mod a b }
    ensures { 0 <= result < b } ensures { a < b -> result = a }
  = mod a b
  let u64_low (a m:int) : int
    requires { in_u64 a /\ 0 < m } ensures { in_u64 result } ensures { result = mod a m } ensures { 0 <= result < m }
  = mod a m
  let u64_shr (a m:int) : int
    requires { in_u64 a /\ 0 < m } ensures { in_u64 result } ensures { result = div a m } ensures { result * m <= a < result * m + m }
  = div a m
  let u64_shl (a m:int) : int
    requires { in_u64 a /\ 0 < m } ensures { in_u64 result } ensures { result = mod (a * m) 18446744073709551616 } ensures { a * m <= 18446744073709551615 -> result = a * m }
  = mod (a * m) 18446744073709551616
  val any_u64 () : int ensures { in_u64 result }
  let to_u64 (x:int) : int
    ensures { in_u64 result } ensures { result = mod x 18446744073709551616 } ensures { in_u64 x -> result = x }
  = mod x 18446744073709551616
end
module I64
  use int.Int
  use int.Abs
  use int.ComputerDivision
  use int.EuclideanDivision as E
  predicate in_i64 (x:int) = -9223372036854775808 <= x <= 9223372036854775807
  let i64_add (a b:int) : int requires { [@expl:signed overflow] in_i64 (a + b) } ensures { result = a + b } = a + b
  let i64_sub (a b:int) : int requires { [@expl:signed overflow] in_i64 (a - b) } ensures { result = a - b } = a - b
  let i64_mul (a b:int) : int requires { [@expl:signed overflow] in_i64 (a * b) } ensures { result = a * b } = a * b
  let i64_neg (a:int) : int requires { [@expl:signed overflow] in_i64 (- a) } ensures { result = - a } = - a
  let i64_abs (a:int) : int requires { [@expl:signed overflow] in_i64 (- a) } ensures { result = abs a } = if a >= 0 then a else - a
  val i64_div (a b:int) : int requires { [@expl:division by zero] b <> 0 } requires { [@expl:signed overflow] in_i64 a /\ not (a = -9223372036854775808 /\ b = -1) }
    ensures { result = div a b } ensures { in_i64 result }
  val i64_rem (a b:int) : int requires { [@expl:division by zero] b <> 0 } requires { [@expl:signed overflow] in_i64 a /\ not (a = -9223372036854775808 /\ b = -1) }
    ensures { result = mod a b } ensures { in_i64 result } ensures { 0 <= a < b -> result = a } ensures { - b < a <= 0 -> result = a }
    ensures { b > 0 -> E.mod a b = if result >= 0 then result else result + b }
    ensures { b > 0 -> - b < result < b } ensures { b > 0 /\ a >= 0 -> result >= 0 } ensures { b > 0 /\ a <= 0 -> result <= 0 }
  val any_i64 () : int ensures { in_i64 result }
  let to_i64 (x:int) : int
    ensures { in_i64 result } ensures { in_i64 x -> result = x } ensures { result = E.mod (x + 9223372036854775808) 18446744073709551616 - 9223372036854775808 }
  = E.mod (x + 9223372036854775808) 18446744073709551616 - 9223372036854775808
end
module U128
  use int.Int
  use int.EuclideanDivision
  predicate in_u128 (x:int) = 0 <= x <= 340282366920938463463374607431768211455
  let u128_add (a b:int) : int
    requires { in_u128 a /\ in_u128 b } ensures { in_u128 result }
    ensures { a + b <= 340282366920938463463374607431768211455 -> result = a + b } ensures { a + b > 340282366920938463463374607431768211455 -> result = a + b - 340282366920938463463374607431768211456 }
  = if a + b <= 340282366920938463463374607431768211455 then a + b else a + b - 340282366920938463463374607431768211456
  let u128_sub (a b:int) : int
    requires { in_u128 a /\ in_u128 b } ensures { in_u128 result }
    ensures { a >= b -> result = a - b } ensures { a < b -> result = a - b + 340282366920938463463374607431768211456 }
  = if a >= b then a - b else a - b + 340282366920938463463374607431768211456
  let u128_neg (a:int) : int
    requires { in_u128 a } ensures { in_u128 result } ensures { a = 0 -> result = 0 } ensures { a > 0 -> result = 340282366920938463463374607431768211456 - a }
  = if a = 0 then 0 else 340282366920938463463374607431768211456 - a
  let u128_mul (a b:int) : int
    requires { in_u128 a /\ in_u128 b } ensures { in_u128 result }
    ensures { result = mod (a * b) 340282366920938463463374607431768211456 } ensures { a * b <= 340282366920938463463374607431768211455 -> result = a * b }
  = if a * b <= 340282366920938463463374607431768211455 then a * b else mod (a * b) 340282366920938463463374607431768211456
  let u128_div (a b:int) : int
    requires { in_u128 a /\ in_u128 b } requires { [@expl:division by zero] b <> 0 } ensures { in_u128 result } ensures { result = div a b }
    ensures { result * b <= a < result * b + b }
  = div a b
  let u128_rem (a b:int) : int
    requires { in_u128 a /\ in_u128 b } requires { [@expl:division by zero] b <> 0 } ensures { in_u128 result } ensures { result = mod a b }
    ensures { 0 <= result < b } ensures { a < b -> result = a }
  = mod a b
  let u128_low (a m:int) : int
    requires { in_u128 a /\ 0 < m } ensures { in_u128 result } ensures { result = mod a m } ensures { 0 <= result < m }
  = mod a m
  let u128_shr (a m:int) : int
    requires { in_u128 a /\ 0 < m } ensures { in_u128 result } ensures { result = div a m } ensures { result * m <= a < result * m + m }
  = div a m
  let u128_shl (a m:int) : int
    requires { in_u128 a /\ 0 < m } ensures { in_u128 result } ensures { result = mod (a * m) 340282366920938463463374607431768211456 } ensures { a * m <= 340282366920938463463374607431768211455 -> result = a * m }
  = mod (a * m) 340282366920938463463374607431768211456
  val any_u128 () : int ensures { in_u128 result }
  let to_u128 (x:int) : int
    ensures { in_u128 result } ensures { result = mod x 340282366920938463463374607431768211456 } ensures { in_u128 x -> result = x }
  = mod x 340282366920938463463374607431768211456
end
module I128
  use int.Int
  use int.Abs
  use int.ComputerDivision
  use int.EuclideanDivision as E
  predicate in_i128 (x:int) = -170141183460469231731687303715884105728 <= x <= 170141183460469231731687303715884105727
  let i128_add (a b:int) : int requires { [@expl:signed overflow] in_i128 (a + b) } ensures { result = a + b } = a + b
  let i128_sub (a b:int) : int requires { [@expl:signed overflow] in_i128 (a - b) } ensures { result = a - b } = a - b
  let i128_mul (a b:int) : int requires { [@expl:signed overflow] in_i128 (a * b) } ensures { result = a * b } = a * b
  let i128_neg (a:int) : int requires { [@expl:signed overflow] in_i128 (- a) } ensures { result = - a } = - a
  let i128_abs (a:int) : int requires { [@expl:signed overflow] in_i128 (- a) } ensures { result = abs a } = if a >= 0 then a else - a
  val i128_div (a b:int) : int requires { [@expl:division by zero] b <> 0 } requires { [@expl:signed overflow] in_i128 a /\ not (a = -170141183460469231731687303715884105728 /\ b = -1) }
    ensures { result = div a b } ensures { in_i128 result }
  val i128_rem (a b:int) : int requires { [@expl:division by zero] b <> 0 } requires { [@expl:signed overflow] in_i128 a /\ not (a = -170141183460469231731687303715884105728 /\ b = -1) }
    ensures { result = mod a b } ensures { in_i128 result } ensures { 0 <= a < b -> result = a } ensures { - b < a <= 0 -> result = a }
    ensures { b > 0 -> E.mod a b = if result >= 0 then result else result + b }
    ensures { b > 0 -> - b < result < b } ensures { b > 0 /\ a >= 0 -> result >= 0 } ensures { b > 0 /\ a <= 0 -> result <= 0 }
  val any_i128 () : int ensures { in_i128 result }
  let to_i128 (x:int) : int
    ensures { in_i128 result } ensures { in_i128 x -> result = x } ensures { result = E.mod (x + 170141183460469231731687303715884105728) 340282366920938463463374607431768211456 - 170141183460469231731687303715884105728 }
  = E.mod (x + 170141183460469231731687303715884105728) 340282366920938463463374607431768211456 - 170141183460469231731687303715884105728
end
module Conv
  use int.Int
  use int.EuclideanDivision
  use U32
  use U64
  use I32
  use I64
  let i64_to_u64 (x:int) : int requires { in_i64 x } ensures { in_u64 result } ensures { x >= 0 -> result = x } ensures { x < 0 -> result = x + 18446744073709551616 }
  = if x >= 0 then x else x + 18446744073709551616
  let u64_to_i64 (x:int) : int requires { in_u64 x } ensures { in_i64 result } ensures { x <= 9223372036854775807 -> result = x } ensures { x > 9223372036854775807 -> result = x - 18446744073709551616 }
  = if x <= 9223372036854775807 then x else x - 18446744073709551616
  let i32_to_u64 (x:int) : int requires { in_i32 x } ensures { in_u64 result } ensures { x >= 0 -> result = x } ensures { x < 0 -> result = x + 18446744073709551616 }
  = if x >= 0 then x else x + 18446744073709551616
  let i32_to_u32 (x:int) : int requires { in_i32 x } ensures { in_u32 result } ensures { x >= 0 -> result = x } ensures { x < 0 -> result = x + 4294967296 }
  = if x >= 0 then x else x + 4294967296
  let u32_to_i32 (x:int) : int requires { in_u32 x } ensures { in_i32 result } ensures { x <= 2147483647 -> result = x } ensures { x > 2147483647 -> result = x - 4294967296 }
  = if x <= 2147483647 then x else x - 4294967296
  let u64_to_u32 (x:int) : int ensures { in_u32 result } ensures { result = mod x 4294967296 } ensures { in_u32 x -> result = x } = mod x 4294967296
  let i64_to_u32 (x:int) : int ensures { in_u32 result } ensures { result = mod x 4294967296 } ensures { in_u32 x -> result = x } = mod x 4294967296
  let u64_to_i32 (x:int) : int ensures { in_i32 result } ensures { result = mod (x + 2147483648) 4294967296 - 2147483648 } ensures { in_i32 x -> result = x } ensures { x >= 18446744071562067968 /\ x <= 18446744073709551615 -> result = x - 18446744073709551616 } = mod (x + 2147483648) 4294967296 - 2147483648
  let i64_to_i32 (x:int) : int ensures { in_i32 result } ensures { result = mod (x + 2147483648) 4294967296 - 2147483648 } ensures { in_i32 x -> result = x } ensures { x >= 18446744071562067968 /\ x <= 18446744073709551615 -> result = x - 18446744073709551616 } = mod (x + 2147483648) 4294967296 - 2147483648
end
