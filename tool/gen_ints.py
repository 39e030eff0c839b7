"""Generates theories/cxxint.mlw: the semantics of C++ machine integers."""
W=[8,16,32,64,128]
o=["(* generated by tool/gen_ints.py: C++ machine integer semantics; unsigned wraps, signed overflow is an obligation *)"]
for w in W:
    U,I="u%d"%w,"i%d"%w
    M=2**w; H=2**(w-1)
    o.append("""module U%d
  use int.Int
  use int.EuclideanDivision
  predicate in_u%d (x:int) = 0 <= x <= %d
  let u%d_add (a b:int) : int
    requires { in_u%d a /\\ in_u%d b } ensures { in_u%d result }
    ensures { a + b <= %d -> result = a + b } ensures { a + b > %d -> result = a + b - %d }
  = if a + b <= %d then a + b else a + b - %d
  let u%d_sub (a b:int) : int
    requires { in_u%d a /\\ in_u%d b } ensures { in_u%d result }
    ensures { a >= b -> result = a - b } ensures { a < b -> result = a - b + %d }
  = if a >= b then a - b else a - b + %d
  let u%d_neg (a:int) : int
    requires { in_u%d a } ensures { in_u%d result } ensures { a = 0 -> result = 0 } ensures { a > 0 -> result = %d - a }
  = if a = 0 then 0 else %d - a
  let u%d_mul (a b:int) : int
    requires { in_u%d a /\\ in_u%d b } ensures { in_u%d result }
    ensures { result = mod (a * b) %d } ensures { a * b <= %d -> result = a * b }
  = if a * b <= %d then a * b else mod (a * b) %d
  let u%d_div (a b:int) : int
    requires { in_u%d a /\\ in_u%d b } requires { [@expl:division by zero] b <> 0 } ensures { in_u%d result } ensures { result = div a b }
    ensures { result * b <= a < result * b + b }
  = div a b
  let u%d_rem (a b:int) : int
    requires { in_u%d a /\\ in_u%d b } requires { [@expl:division by zero] b <> 0 } ensures { in_u%d result } ensures { result = mod a b }
    ensures { 0 <= result < b } ensures { a < b -> result = a }
  = mod a b
  let u%d_low (a m:int) : int
    requires { in_u%d a /\\ 0 < m } ensures { in_u%d result } ensures { result = mod a m } ensures { 0 <= result < m }
  = mod a m
  let u%d_shr (a m:int) : int
    requires { in_u%d a /\\ 0 < m } ensures { in_u%d result } ensures { result = div a m } ensures { result * m <= a < result * m + m }
  = div a m
  let u%d_shl (a m:int) : int
    requires { in_u%d a /\\ 0 < m } ensures { in_u%d result } ensures { result = mod (a * m) %d } ensures { a * m <= %d -> result = a * m }
  = mod (a * m) %d
  val any_u%d () : int ensures { in_u%d result }
  let to_u%d (x:int) : int
    ensures { in_u%d result } ensures { result = mod x %d } ensures { in_u%d x -> result = x }
  = mod x %d
end"""%((w,w,M-1)+(w,w,w,w,M-1,M-1,M,M-1,M)+(w,w,w,w,M,M)+(w,w,w,M,M)+(w,w,w,w,M,M-1,M-1,M)+(w,w,w,w)+(w,w,w,w)+(w,w,w)+(w,w,w)+(w,w,w,M,M-1,M)+(w,w)+(w,w,M,w,M)))
    o.append("""module I%d
  use int.Int
  use int.Abs
  use int.ComputerDivision
  use int.EuclideanDivision as E
  predicate in_i%d (x:int) = -%d <= x <= %d
  let i%d_add (a b:int) : int requires { [@expl:signed overflow] in_i%d (a + b) } ensures { result = a + b } = a + b
  let i%d_sub (a b:int) : int requires { [@expl:signed overflow] in_i%d (a - b) } ensures { result = a - b } = a - b
  let i%d_mul (a b:int) : int requires { [@expl:signed overflow] in_i%d (a * b) } ensures { result = a * b } = a * b
  let i%d_neg (a:int) : int requires { [@expl:signed overflow] in_i%d (- a) } ensures { result = - a } = - a
  let i%d_abs (a:int) : int requires { [@expl:signed overflow] in_i%d (- a) } ensures { result = abs a } = if a >= 0 then a else - a
  val i%d_div (a b:int) : int requires { [@expl:division by zero] b <> 0 } requires { [@expl:signed overflow] in_i%d a /\\ not (a = -%d /\\ b = -1) }
    ensures { result = div a b } ensures { in_i%d result }
  val i%d_rem (a b:int) : int requires { [@expl:division by zero] b <> 0 } requires { [@expl:signed overflow] in_i%d a /\\ not (a = -%d /\\ b = -1) }
    ensures { result = mod a b } ensures { in_i%d result } ensures { 0 <= a < b -> result = a } ensures { - b < a <= 0 -> result = a }
    ensures { b > 0 -> E.mod a b = if result >= 0 then result else result + b }
    ensures { b > 0 -> - b < result < b } ensures { b > 0 /\\ a >= 0 -> result >= 0 } ensures { b > 0 /\\ a <= 0 -> result <= 0 }
  val any_i%d () : int ensures { in_i%d result }
  let to_i%d (x:int) : int
    ensures { in_i%d result } ensures { in_i%d x -> result = x } ensures { result = E.mod (x + %d) %d - %d }
  = E.mod (x + %d) %d - %d
end"""%((w,w,H,H-1)+(w,w)*5+(w,w,H,w)+(w,w,H,w)+(w,w)+(w,w,w,H,M,H,H,M,H)))
o.append("""module Conv
  use int.Int
  use int.EuclideanDivision
  use U32
  use U64
  use I32
  use I64""")
def conv(a,b):
    aw,bw=int(a[1:]),int(b[1:])
    M=2**bw
    if a[0]=='i' and b[0]=='u':
        o.append("""  let %s_to_%s (x:int) : int requires { in_%s x } ensures { in_%s result } ensures { x >= 0 -> result = x } ensures { x < 0 -> result = x + %d }
  = if x >= 0 then x else x + %d"""%(a,b,a,b,M,M))
    else:
        o.append("""  let %s_to_%s (x:int) : int requires { in_%s x } ensures { in_%s result } ensures { x <= %d -> result = x } ensures { x > %d -> result = x - %d }
  = if x <= %d then x else x - %d"""%(a,b,a,b,M//2-1,M//2-1,M,M//2-1,M))
for a,b in (("i64","u64"),("u64","i64"),("i32","u64"),("i32","u32"),("u32","i32")): conv(a,b)
for a,b in (("u64","u32"),("i64","u32"),):
    o.append("  let %s_to_%s (x:int) : int ensures { in_%s result } ensures { result = mod x 4294967296 } ensures { in_%s x -> result = x } = mod x 4294967296"%(a,b,b,b))
for a,b in (("u64","i32"),("i64","i32")):
    o.append("  let %s_to_%s (x:int) : int ensures { in_i32 result } ensures { result = mod (x + 2147483648) 4294967296 - 2147483648 } ensures { in_i32 x -> result = x } ensures { x >= 18446744071562067968 /\\ x <= 18446744073709551615 -> result = x - 18446744073709551616 } = mod (x + 2147483648) 4294967296 - 2147483648"%(a,b))
o.append("end")
open("/verif/theories/cxxint.mlw","w").write("\n".join(o)+"\n")
