// Integer arithmetic monitors: B01 ring arithmetic, B02 division, B03 value
// semantics, B04 conversions, B05 unsigned primitives.
#include "common.h"

#include <cfloat>
#include <cmath>

#include "walnut/big_uint.h"
#include "walnut/big_uint_word.h"
#include "walnut/double.h"
#include "walnut/homo_point3.h"

using namespace vf;
using walnut::BigInt;
using walnut::BigIntHalfWord;
using walnut::BigIntWord;
using walnut::BigUInt;
using walnut::BigUIntWord;

namespace {

size_t PickBits(Rng& r) {
  switch (r.below(8)) {
    case 0: return 31;
    case 1: return 33;
    case 2: return 63;
    case 3: return 65;
    case 4: return 130;
    case 5: return 260;
    case 6: return 700;
    default: return st().thorough ? 3000 : 1300;
  }
}

// One tracked value: what the code holds and what it should equal.
struct Pair {
  BigInt b;
  mpz_class z;
};

std::string Desc(const char* op, const std::vector<mpz_class>& in,
                 const mpz_class& want, const BigInt& got) {
  std::string s = op;
  s += "(";
  for (size_t i = 0; i < in.size(); ++i) {
    if (i) s += ", ";
    s += in[i].get_str();
  }
  s += ") expected " + want.get_str() + " got " + Z(got).get_str();
  return s;
}

void CheckVal(const char* op, const std::vector<mpz_class>& in,
              const mpz_class& want, const BigInt& got) {
  Count(std::string("op_") + op);
  const size_t words = WordsOf(want).size();
  CountMax("words", words);
  if (Z(got) != want) Fail(std::string("value-") + op, Desc(op, in, want, got));
  // A value may not depend on how it was reached: it must equal a freshly
  // built one, and hash like it.
  const BigInt fresh = B(want);
  if (!(got == fresh) || !(fresh == got) || got != fresh ||
      got.Compare(fresh) != 0 || fresh.Compare(got) != 0) {
    Fail(std::string("equality-") + op, Desc(op, in, want, got) +
         " is not equal to a freshly built value; words " +
         std::to_string(got.used_words()) + " vs " +
         std::to_string(fresh.used_words()));
  }
  if (got.GetHash() != fresh.GetHash()) {
    Fail(std::string("hash-") + op, Desc(op, in, want, got) + " hash differs");
  }
  Observe(words * 131 + (sgn(want) + 1));
}

const size_t kPool = 6;

mpz_class Fresh(Rng& r) { return RandZ(r, PickBits(r)); }

int RandInt(Rng& r) {
  switch (r.below(6)) {
    case 0: return (int)r.range(-3, 3);
    case 1: return INT32_MIN;
    case 2: return INT32_MAX;
    case 3: return (int)r.range(-100000, 100000);
    default: return (int)(uint32_t)r.next();
  }
}

int64_t RandI64(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.range(-3, 3);
    case 1: return INT64_MIN + r.range(0, 2);
    case 2: return INT64_MAX - r.range(0, 2);
    case 3: return (int64_t)RandInt(r);
    default: return (int64_t)r.next();
  }
}

void Limit(Rng& r, Pair& p) {
  const size_t limit = st().thorough ? 9000 : 3500;
  if (mpz_sizeinbase(p.z.get_mpz_t(), 2) > limit) {
    p.z = Fresh(r);
    p.b = B(p.z);
  }
}

// Pulls the values close to a word boundary now and then, so that carries
// ripple through histories rather than only through single operations.
void MaybeBoundary(Rng& r, Pair& p) {
  if (!r.chance(1, 10)) return;
  size_t k = 32 * (1 + r.below(10));
  mpz_class v = 1;
  v <<= (k - r.below(2));
  v += (long)r.range(-2, 2);
  if (r.coin()) v = -v;
  p.z = v;
  p.b = B(v);
}

}  // namespace

PROPERTY(B01) {
  std::vector<Pair> pool(kPool);
  for (Pair& p : pool) {
    p.z = Fresh(r);
    p.b = B(p.z);
  }
  const int ops = 40;
  std::string trace;
  for (int step = 0; step < ops; ++step) {
    const size_t i = r.below(kPool), j = r.below(kPool), k = r.below(kPool);
    MaybeBoundary(r, pool[i]);
    if (r.chance(1, 4)) MaybeBoundary(r, pool[j]);
    Pair& a = pool[i];
    Pair& b = pool[j];
    Pair& c = pool[k];
    const mpz_class az = a.z, bz = b.z, cz = c.z;
    const char* op = "?";
    std::vector<mpz_class> in{az, bz};
    Pair* out = &a;
    switch (r.below(32)) {
      case 0: op = "add"; c.b = a.b + b.b; c.z = az + bz; out = &c; break;
      case 1: op = "Add"; c.b = a.b.Add(b.b); c.z = az + bz; out = &c; break;
      case 2: op = "sub"; c.b = a.b - b.b; c.z = az - bz; out = &c; break;
      case 3: op = "Subtract"; c.b = a.b.Subtract(b.b); c.z = az - bz; out = &c; break;
      case 4: op = "mul"; c.b = a.b * b.b; c.z = az * bz; out = &c; break;
      case 5: op = "Multiply"; c.b = a.b.Multiply(b.b); c.z = az * bz; out = &c; break;
      case 6: op = i == j ? "add_assign_self" : "add_assign"; a.b += b.b; a.z = az + bz; break;
      case 7: op = i == j ? "sub_assign_self" : "sub_assign"; a.b -= b.b; a.z = az - bz; break;
      case 8: op = i == j ? "mul_assign_self" : "mul_assign"; a.b *= b.b; a.z = az * bz; break;
      case 9: { int v = RandInt(r); in = {az, v}; op = "add_int"; c.b = a.b + v; c.z = az + v; out = &c; break; }
      case 10: { int v = RandInt(r); in = {az, v}; op = "sub_int"; c.b = a.b - v; c.z = az - v; out = &c; break; }
      case 11: { int v = RandInt(r); in = {az, v}; op = "mul_int"; c.b = a.b * v; c.z = az * v; out = &c; break; }
      case 12: { int v = RandInt(r); in = {az, v}; op = "int_mul"; c.b = v * a.b; c.z = az * v; out = &c; break; }
      case 13: { int64_t v = RandI64(r); in = {az, ZFromI64(v)}; op = "mul_word"; c.b = a.b * (BigIntWord)v; c.z = az * ZFromI64(v); out = &c; break; }
      case 14: { int v = RandInt(r); in = {az, v}; op = "mul_assign_int"; a.b *= v; a.z = az * v; break; }
      case 15: { int v = RandInt(r); in = {az, v}; op = "add_assign_int"; a.b += (BigIntHalfWord)v; a.z = az + v; break; }
      case 16: { int v = RandInt(r); in = {az, v}; op = "sub_assign_int"; a.b -= (BigIntHalfWord)v; a.z = az - v; break; }
      case 17: case 28: {
        in = {az}; op = "increment";
        int n = (int)r.range(1, 3);
        for (int t = 0; t < n; ++t) { BigInt& ref = ++a.b; Require(&ref == &a.b, "increment-ref"); a.z += 1;
          CheckVal(op, {a.z - 1}, a.z, a.b); }
        break;
      }
      case 18: case 29: {
        in = {az}; op = "decrement";
        int n = (int)r.range(1, 3);
        for (int t = 0; t < n; ++t) { BigInt& ref = --a.b; Require(&ref == &a.b, "decrement-ref"); a.z -= 1;
          CheckVal(op, {a.z + 1}, a.z, a.b); }
        break;
      }
      case 19: in = {az}; op = "negate"; a.b.Negate(); a.z = -az; break;
      case 20: in = {az}; op = "unary_minus"; c.b = -a.b; c.z = -az; out = &c; break;
      case 21: in = {az}; op = "abs"; c.b = a.b.abs(); c.z = abs(az); out = &c; break;
      case 22: {
        in = {az}; op = "GetAbs";
        bool sgnd = false;
        BigInt t = a.b.GetAbs(sgnd);
        Require(sgnd == (az < 0), "GetAbs-sign", az.get_str());
        c.b = t; c.z = abs(az); out = &c; break;
      }
      case 23: {
        in = {az, bz, cz}; op = i == j || i == k || j == k ? "add_multiply_alias" : "add_multiply";
        a.b.AddMultiply(b.b, c.b); a.z = az + bz * cz; break;
      }
      case 24: {
        in = {az, bz, cz}; op = i == j || i == k || j == k ? "sub_multiply_alias" : "sub_multiply";
        a.b.SubtractMultiply(b.b, c.b); a.z = az - bz * cz; break;
      }
      case 25: {
        Pair& d = pool[r.below(kPool)];
        const mpz_class dz = d.z;
        in = {az, bz, cz, dz}; op = "determinant";
        BigInt t = BigInt::Determinant(a.b, b.b, c.b, d.b);
        mpz_class tz = az * dz - cz * bz;
        // Determinant is |r1c1 r1c2; r2c1 r2c2|
        a.b = t; a.z = tz; break;
      }
      case 26: case 27: {
        size_t s = r.chance(1, 3) ? 64 * r.below(5) : r.below(300);
        in = {az, (unsigned long)s}; op = "shift_left";
        c.b = a.b << s; c.z = az << s; out = &c; break;
      }
      case 30: {
        size_t bits = r.chance(1, 2) ? 32 * r.below(12) + r.below(3) : r.below(400);
        in = {(unsigned long)bits}; op = "max_value";
        c.b = BigInt::max_value(bits);
        c.z = 1; c.z <<= bits; c.z -= 1; out = &c; break;
      }
      case 31: {
        size_t bits = r.chance(1, 2) ? 32 * r.below(12) + r.below(3) : r.below(400);
        in = {(unsigned long)bits}; op = "min_value";
        c.b = BigInt::min_value(bits);
        c.z = 1; c.z <<= bits; c.z = -c.z; out = &c; break;
      }
    }
    CheckVal(op, in, out->z, out->b);
    if (WantSample() && WordsOf(out->z).size() > 2) {
      Sample(Desc(op, in, out->z, out->b));
    }
    if (WordsOf(out->z).size() > 1) NonTrivial();
    // No other value may have moved.
    for (size_t t = 0; t < kPool; ++t) {
      if (Z(pool[t].b) != pool[t].z) {
        Fail(std::string("bystander-") + op,
             Desc(op, in, pool[t].z, pool[t].b) + " (operand or bystander changed)");
      }
    }
    Observe(op);
    Limit(r, a);
    Limit(r, c);
  }
}

namespace {

void CheckDiv(const mpz_class& az, const mpz_class& bz, Rng& r) {
  BigInt a = B(az), b = B(bz);
  mpz_class q, rem;
  mpz_tdiv_qr(q.get_mpz_t(), rem.get_mpz_t(), az.get_mpz_t(), bz.get_mpz_t());
  std::vector<mpz_class> in{az, bz};
  CheckVal("divide", in, q, a / b);
  CheckVal("modulo", in, rem, a % b);
  BigInt rr(7);
  BigInt qq = a.DivideRemainder(b, &rr);
  CheckVal("DivideRemainder_q", in, q, qq);
  CheckVal("DivideRemainder_r", in, rem, rr);
  if (r.chance(1, 4)) {
    // The remainder may be stored over the divisor's copy.
    BigInt b2 = b;
    BigInt q2 = a.DivideRemainder(b, &b2);
    CheckVal("DivideRemainder_q", in, q, q2);
    CheckVal("DivideRemainder_r", in, rem, b2);
  }
  BigInt c = a;
  c /= b;
  CheckVal("divide_assign", in, q, c);
  if (bz.fits_sint_p()) {
    CheckVal("divide_int", in, q, a / (int)bz.get_si());
  }
  CheckVal("operand", {az}, az, a);
  CheckVal("operand", {bz}, bz, b);
  Count("divide_words_" + std::to_string(std::min<size_t>(WordsOf(az).size(), 9)) +
        "_by_" + std::to_string(std::min<size_t>(WordsOf(bz).size(), 9)));
  Observe(WordsOf(az).size() * 100 + WordsOf(bz).size());
  Observe(mpz_get_ui(az.get_mpz_t()));
  if (WordsOf(az).size() > 1 || WordsOf(bz).size() > 1) NonTrivial();
  if (WantSample() && WordsOf(bz).size() > 1) {
    Sample(az.get_str() + " / " + bz.get_str() + " = " + S(qq) + " rem " + S(rr));
  }
}

}  // namespace

PROPERTY(B02) {
  for (int t = 0; t < 12; ++t) {
    mpz_class a, b;
    do { b = Fresh(r); } while (b == 0);
    switch (r.below(6)) {
      case 0: a = Fresh(r); break;
      case 1: {
        // Near an exact multiple, where quotient digits are overestimated or
        // underestimated.
        a = b * Fresh(r) + (long)r.range(-2, 2);
        break;
      }
      case 2: {
        mpz_class q = Fresh(r);
        a = b * q + (b > 0 ? mpz_class(b - 1) : mpz_class(b + 1));
        break;
      }
      case 3: {
        // Divisor whose leading half word is all ones or 100..0.
        size_t words = 1 + r.below(5);
        mpz_class top = r.coin() ? 0xFFFFFFFFul : 0x80000000ul;
        b = top << (32 * r.below(2 * words) + r.below(32));
        b += RandRuns(r, 1 + r.below(60));
        a = RandZ(r, 64 * (words + r.below(6)) + 1);
        break;
      }
      case 4: {
        // Quotient near a power of two: q = 2^k - 1 or 2^k.
        mpz_class q = 1;
        q <<= r.below(400);
        q += (long)r.range(-1, 1);
        a = q * b + (r.coin() ? mpz_class(0) : mpz_class(b - 1));
        break;
      }
      default: {
        // Single word edges: INT64_MIN, -1, ...
        a = ZFromI64(RandI64(r));
        int64_t d = RandI64(r);
        b = d == 0 ? mpz_class(-1) : ZFromI64(d);
        if (r.chance(1, 3)) b = -1;
      }
    }
    CheckDiv(a, b, r);
  }
  // Greatest common divisors.
  for (int t = 0; t < 3; ++t) {
    size_t bits = r.chance(1, 3) ? 60 : 200;
    mpz_class g = RandZ(r, bits), x = RandZ(r, bits), y = RandZ(r, bits);
    if (r.chance(1, 5)) x = ZFromI64(INT64_MIN), y = RandI64(r) % 5, g = 1;
    mpz_class az = g * x, bz = g * y, want;
    if (r.chance(1, 10)) az = 0;
    if (r.chance(1, 10)) bz = 0;
    mpz_gcd(want.get_mpz_t(), az.get_mpz_t(), bz.get_mpz_t());
    BigInt got = B(az).GetGreatestCommonDivisor(B(bz));
    if (abs(Z(got)) != want) {
      Fail("gcd", "gcd(" + az.get_str() + ", " + bz.get_str() + ") expected +-" +
           want.get_str() + " got " + S(got));
    }
    CheckVal("gcd", {az, bz}, Z(got), got);
  }
  // Decimal text.
  for (int t = 0; t < 2; ++t) {
    mpz_class v = Fresh(r);
    if (r.chance(1, 4)) {
      mpz_ui_pow_ui(v.get_mpz_t(), 10, r.below(120));
      v += (long)r.range(-1, 1);
      if (r.coin()) v = -v;
    }
    std::ostringstream out;
    out << B(v);
    Count("op_print");
    VREQ(out.str() == v.get_str(), "print",
         "printing " << v.get_str() << " gave " << out.str());
  }
}

namespace {

void CheckOrder(const BigInt& a, const mpz_class& az, const BigInt& b,
                const mpz_class& bz) {
  const int want = az < bz ? -1 : (az > bz ? 1 : 0);
  auto d = [&](const char* op) {
    return std::string(op) + " on " + az.get_str() + " and " + bz.get_str();
  };
  Require(SgnI(a.Compare(b)) == want && a.Compare(b) == want, "order-Compare", d("Compare"));
  Require((a < b) == (want < 0), "order-lt", d("<"));
  Require((a <= b) == (want <= 0), "order-le", d("<="));
  Require((a > b) == (want > 0), "order-gt", d(">"));
  Require((a >= b) == (want >= 0), "order-ge", d(">="));
  Require((a == b) == (want == 0), "order-eq", d("=="));
  Require((a != b) == (want != 0), "order-ne", d("!="));
  Require(a.LessThan(false, b) == (want < 0), "order-LessThan", d("LessThan(false)"));
  Require(a.LessThan(true, b) == (want > 0), "order-LessThan-flip", d("LessThan(true)"));
  BigInt::FlippableCompare f0(false), f1(true);
  Require(f0(a, b) == (want < 0), "order-FlippableCompare", d("FlippableCompare(false)"));
  Require(f1(a, b) == (want > 0), "order-FlippableCompare", d("FlippableCompare(true)"));
  if (want == 0) Require(a.GetHash() == b.GetHash(), "order-hash", d("GetHash"));
  // Sign relations.
  const bool an = az < 0, bn = bz < 0;
  Require(a.HasDifferentSign(b) == (an != bn), "sign-HasDifferentSign", d("HasDifferentSign"));
  Require(a.HasSameSign(b) == (an == bn), "sign-HasSameSign", d("HasSameSign"));
  Require(a.GetAbsMult(b) == (an == bn ? 1 : -1), "sign-GetAbsMult2", d("GetAbsMult"));
  const mpz_class hmin = INT32_MIN, hmax = INT32_MAX;
  const bool ah = az >= hmin && az <= hmax, bh = bz >= hmin && bz <= hmax;
  Require(BigInt::AllHalfWords(a, b) == (ah && bh), "half-AllHalfWords2", d("AllHalfWords"));
  Count("order_pairs");
  if (want == 0) Count("order_pairs_equal");
}

void CheckUnary(const BigInt& a, const mpz_class& az, Rng& r) {
  auto d = [&](const char* op) { return std::string(op) + " on " + az.get_str(); };
  Require(SgnI(a.GetSign()) == sgn(az), "sign-GetSign", d("GetSign"));
  if (az == 1) Require(a.GetSign() == 1, "sign-GetSign-one", d("GetSign"));
  Require(a.IsZero() == (az == 0), "sign-IsZero", d("IsZero"));
  Require(a.IsNegative() == (az < 0), "sign-IsNegative", d("IsNegative"));
  Require(a.GetAbsMult() == (az < 0 ? -1 : 1), "sign-GetAbsMult", d("GetAbsMult"));
  Require(a.SignExtension() == (az < 0 ? -1 : 0), "sign-SignExtension", d("SignExtension"));
  const mpz_class hmin = INT32_MIN, hmax = INT32_MAX;
  Require(a.IsHalfWord() == (az >= hmin && az <= hmax), "half-IsHalfWord", d("IsHalfWord"));
  if (az >= hmin && az <= hmax) Require(a.ToInt() == (int)az.get_si(), "ToInt", d("ToInt"));
  mpz_class low;
  mpz_fdiv_r_2exp(low.get_mpz_t(), az.get_mpz_t(), 64);
  Require(ZFromU64(a.low_uint64()) == low, "low_uint64", d("low_uint64"));
  mpz_fdiv_r_2exp(low.get_mpz_t(), az.get_mpz_t(), 32);
  Require(ZFromU64(a.low_uint32()) == low, "low_uint32", d("low_uint32"));
  for (int t = 0; t < 2; ++t) {
    int v = RandInt(r);
    if (t == 1 && az.fits_sint_p()) v = (int)az.get_si();
    Require((a == v) == (az == v), "order-int-eq", d("==int") + " " + std::to_string(v));
    Require((a != v) == (az != v), "order-int-ne", d("!=int") + " " + std::to_string(v));
    Require((a < v) == (az < v), "order-int-lt", d("<int") + " " + std::to_string(v));
    Require((a <= v) == (az <= v), "order-int-le", d("<=int") + " " + std::to_string(v));
    Require((a > v) == (az > v), "order-int-gt", d(">int") + " " + std::to_string(v));
    Require((a >= v) == (az >= v), "order-int-ge", d(">=int") + " " + std::to_string(v));
  }
  bool was = !(az < 0);
  BigUInt u = a.GetUIntAbs(&was);
  Require(was == (az < 0), "GetUIntAbs-sign", d("GetUIntAbs"));
  CheckVal("from_biguint", {az}, abs(az), BigInt(u));
  BigInt assigned(RandI64(r));
  assigned = u;
  CheckVal("assign_biguint", {az}, abs(az), assigned);
}

// Reaches `z` along a random history, so that equal values with different
// pasts (spare capacity, carries, sign changes) are compared.
BigInt Reach(Rng& r, const mpz_class& z) {
  BigInt b;
  switch (r.below(9)) {
    case 0: b = B(z); break;
    case 1: { mpz_class d = Fresh(r); b = B(z - d); b += B(d); break; }
    case 2: { mpz_class d = Fresh(r); b = B(z + d); b -= B(d); break; }
    case 3: { int n = (int)r.range(1, 4); b = B(z - n); while (n--) ++b; break; }
    case 4: { int n = (int)r.range(1, 4); b = B(z + n); while (n--) --b; break; }
    case 5: { b = B(-z); b.Negate(); break; }
    case 6: { mpz_class d = Fresh(r); if (d == 0) d = 3; b = B(z * d); b /= B(d); break; }
    case 7: { BigInt big = B(RandZ(r, 1000)); big = B(z); b = std::move(big); break; }
    default: { mpz_class d = RandZ(r, 500); BigInt t = B(z - d); b = t + B(d); break; }
  }
  return b;
}

}  // namespace

PROPERTY(B03) {
  const size_t n = 8;
  std::vector<mpz_class> zs;
  std::vector<BigInt> bs;
  mpz_class base = Fresh(r);
  for (size_t i = 0; i < n; ++i) {
    mpz_class z;
    switch (r.below(6)) {
      case 0: z = base; break;
      case 1: z = base + (long)r.range(-2, 2); break;
      case 2: z = -base; break;
      case 3: {
        // Differs from the base in exactly one word.
        mpz_class bit = 1;
        bit <<= r.below(mpz_sizeinbase(base.get_mpz_t(), 2) + 2);
        z = base + bit;
        break;
      }
      case 4: z = ~base; break;
      default: z = Fresh(r);
    }
    zs.push_back(z);
    bs.push_back(Reach(r, z));
    CheckVal("reach", {z}, z, bs.back());
  }
  for (size_t i = 0; i < n; ++i) {
    CheckUnary(bs[i], zs[i], r);
    for (size_t j = 0; j < n; ++j) CheckOrder(bs[i], zs[i], bs[j], zs[j]);
    size_t j = r.below(n), k = r.below(n);
    const mpz_class hmin = INT32_MIN, hmax = INT32_MAX;
    bool all = true;
    for (size_t t : {i, j, k}) all = all && zs[t] >= hmin && zs[t] <= hmax;
    Require(BigInt::AllHalfWords(bs[i], bs[j], bs[k]) == all, "half-AllHalfWords3",
            zs[i].get_str() + " " + zs[j].get_str() + " " + zs[k].get_str());
    Observe(WordsOf(zs[i]).size());
    Observe(mpz_get_ui(zs[i].get_mpz_t()));
    if (WordsOf(zs[i]).size() > 1) NonTrivial();
  }
  // Copies, assignments and moves give independent values.
  for (int t = 0; t < 12; ++t) {
    size_t i = r.below(n), j = r.below(n);
    switch (r.below(7)) {
      case 0: bs[i] = bs[j]; zs[i] = zs[j]; break;
      case 1: { BigInt c(bs[j]); ++c; bs[i] = c; zs[i] = zs[j] + 1; break; }
      case 2: if (i != j) { std::swap(bs[i], bs[j]); std::swap(zs[i], zs[j]); } break;
      case 3: {
        if (i == j) break;
        bs[i] = std::move(bs[j]);
        zs[i] = zs[j];
        // A moved from value may be assigned.
        zs[j] = Fresh(r);
        if (r.coin()) {
          const BigInt fresh = B(zs[j]);
          bs[j] = fresh;
        } else {
          bs[j] = B(zs[j]);
        }
        break;
      }
      case 4: {
        BigInt c(std::move(bs[i]));
        CheckVal("move_construct", {zs[i]}, zs[i], c);
        zs[i] = Fresh(r);
        const BigInt fresh = B(zs[i]);
        bs[i] = fresh;
        break;
      }
      case 5: { int64_t v = RandI64(r); bs[i] = (BigIntWord)v; zs[i] = ZFromI64(v); break; }
      case 6: { BigInt& self = bs[i]; bs[i] = self; break; }
    }
    CheckVal("assign", {zs[i]}, zs[i], bs[i]);
    CheckVal("assign_other", {zs[j]}, zs[j], bs[j]);
  }
  std::vector<size_t> perm(n);
  for (size_t i = 0; i < n; ++i) perm[i] = i;
  std::sort(perm.begin(), perm.end(), [&](size_t x, size_t y) { return bs[x] < bs[y]; });
  for (size_t i = 1; i < n; ++i) {
    Require(zs[perm[i - 1]] <= zs[perm[i]], "sort", "std::sort by < left values out of order");
  }
  // Constructors from machine integers.
  int64_t v = RandI64(r);
  CheckVal("ctor_word", {ZFromI64(v)}, ZFromI64(v), BigInt((BigIntWord)v));
  int h = RandInt(r);
  CheckVal("ctor_half", {h}, h, BigInt((BigIntHalfWord)h));
  uint64_t u = (uint64_t)RandI64(r);
  CheckVal("ctor_biguint", {ZFromU64(u)}, ZFromU64(u), BigInt(BigUInt(u)));
  CheckVal("ctor_default", {0}, 0, BigInt());
  if (WantSample()) Sample("values " + zs[0].get_str() + ", " + zs[1].get_str() + ", " + zs[2].get_str());
}

// ---------------------------------------------------------------------------
namespace {

mpq_class Q(double d) {
  mpq_class q;
  mpq_set_d(q.get_mpq_t(), d);
  return q;
}

mpq_class QL(long double d) {
  int e;
  long double m = frexpl(d, &e);
  // m * 2^64 is an integer.
  bool neg = m < 0;
  if (neg) m = -m;
  uint64_t i = (uint64_t)ldexpl(m, 64);
  mpz_class z = ZFromU64(i);
  mpq_class q(z);
  e -= 64;
  if (e >= 0) mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), e);
  else mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), -e);
  return neg ? -q : q;
}

double RandDouble(Rng& r) {
  switch (r.below(9)) {
    case 0: return (double)r.range(-5, 5);
    case 1: return r.coin() ? 0.0 : -0.0;
    case 2: return ldexp((double)r.range(-1000000, 1000000), (int)r.range(-60, 30));
    case 3: return (r.unit() - 0.5) * 100;
    case 4: {
      // any exponent, including subnormals
      double m = 1 + r.unit();
      return ldexp(r.coin() ? m : -m, (int)r.range(-1074, 1023));
    }
    case 5: return ldexp((double)(r.next() >> 11), (int)r.range(-1074, 900));
    case 6: return -ldexp((double)((1ull << 53) - 1), (int)r.range(-100, 100));
    case 7: return ldexp(r.coin() ? 1.0 : -1.0, (int)r.range(-1074, 1023));
    default: return ldexp((r.unit() - 0.5), (int)r.range(-30, 30));
  }
}

void CheckToDouble(const mpz_class& z) {
  BigInt b = B(z);
  const double got = (double)b;
  Count("op_to_double");
  mpz_class az = abs(z);
  const size_t bits = z == 0 ? 0 : mpz_sizeinbase(az.get_mpz_t(), 2);
  size_t low = z == 0 ? 0 : mpz_scan1(az.get_mpz_t(), 0);
  const bool exact = z == 0 || (bits - low <= 53 && bits <= 1024);
  if (bits <= 1023) {
    mpq_class err = abs(Q(got) - mpq_class(z));
    mpq_class bound(az);
    mpq_div_2exp(bound.get_mpq_t(), bound.get_mpq_t(), 51);
    VREQ(err <= bound, "to-double", "double(" << z.get_str() << ") gave " << got);
    if (exact) {
      VREQ(Q(got) == mpq_class(z), "to-double-exact",
           "double(" << z.get_str() << ") gave " << got << " but the value is representable");
    }
  } else {
    VREQ(!(got != got) && SgnI(got > 0 ? 1 : (got < 0 ? -1 : 0)) == sgn(z) &&
         fabs(got) >= ldexp(1, 1023) * (1 - 1e-15),
         "to-double-range", "double of a " << bits << " bit integer gave " << got);
    if (bits > 1100) VREQ(std::isinf(got), "to-double-inf", bits << " bits gave " << got);
  }
  if (bits <= 3500) {
    const long double gl = (long double)b;
    Count("op_to_long_double");
    mpq_class err = abs(QL(gl) - mpq_class(z));
    mpq_class bound(az);
    mpq_div_2exp(bound.get_mpq_t(), bound.get_mpq_t(), 61);
    VREQ(err <= bound, "to-long-double", "(long double)(" << z.get_str() << ") gave " << (double)gl);
    if (z == 0 || bits - low <= 53) {
      VREQ(QL(gl) == mpq_class(z), "to-long-double-exact", z.get_str());
    }
  }
  Observe(bits);
  if (bits > 64) NonTrivial();
}

}  // namespace

PROPERTY(B04) {
  using walnut::HomoPoint3;
  for (int t = 0; t < 4; ++t) {
    mpz_class z = Fresh(r);
    if (r.chance(1, 3)) {
      // Exactly representable, at a random place.
      z = RandBits(r, 1 + r.below(53));
      z <<= r.below(900);
      if (r.coin()) z = -z;
    }
    if (r.chance(1, 20)) { z = RandZ(r, 1); z <<= 1000 + r.below(300); z += RandZ(r, 1024); }
    CheckToDouble(z);
  }
  // Decompose: mantissa * 2^exponent is the value, with the smallest mantissa.
  for (int t = 0; t < 4; ++t) {
    double d = RandDouble(r);
    if (r.chance(1, 30)) d = 0;
    int exp = 12345;
    const int64_t m = walnut::Decompose(d, &exp);
    mpq_class v(ZFromI64(m));
    if (exp >= 0) mpq_mul_2exp(v.get_mpq_t(), v.get_mpq_t(), exp);
    else mpq_div_2exp(v.get_mpq_t(), v.get_mpq_t(), -exp);
    VREQ(v == Q(d), "decompose", "Decompose(" << std::hexfloat << d << ") gave "
         << std::dec << m << " * 2^" << exp);
    VREQ(m == 0 ? exp == 0 : (m & 1) != 0, "decompose-smallest", "Decompose("
         << std::hexfloat << d << ") gave " << std::dec << m << " * 2^" << exp);
    Count("op_decompose");
  }
  // Exact conversion to a homogeneous point, and back.
  {
    double c[3];
    int kind = (int)r.below(3);
    for (double& x : c) {
      x = kind == 0 ? RandDouble(r)
        : ldexp((double)r.range(-100000000, 100000000), (int)r.range(-40, 10));
    }
    HomoPoint3 p = HomoPoint3::FromDoublesExact(c[0], c[1], c[2]);
    mpz_class w = Z(p.w());
    VREQ(w != 0, "from-doubles-exact", "w is zero");
    const mpz_class n[3] = {Z(p.x()), Z(p.y()), Z(p.z())};
    for (int i = 0; i < 3; ++i) {
      mpq_class v(n[i], w);
      v.canonicalize();
      VREQ(v == Q(c[i]), "from-doubles-exact",
           std::hexfloat << "FromDoublesExact(" << c[0] << ", " << c[1] << ", " << c[2]
           << ") component " << std::dec << i << " is " << v.get_str());
    }
    Count("op_from_doubles_exact");
    HomoPoint3 q = HomoPoint3::FromDoubles(INT_MIN, c[0], c[1], c[2]);
    VREQ(mpq_class(Z(q.x()) * w) == mpq_class(n[0] * Z(q.w())) &&
         mpq_class(Z(q.y()) * w) == mpq_class(n[1] * Z(q.w())) &&
         mpq_class(Z(q.z()) * w) == mpq_class(n[2] * Z(q.w())),
         "from-doubles-intmin", "FromDoubles(INT_MIN) is not exact for " << c[0] << ", " << c[1] << ", " << c[2]);
    if (kind != 0) {
      // All of these are in the middle of the double range: a round trip must
      // reproduce them.
      auto back = p.GetDoublePoint3();
      const double g[3] = {back.x, back.y, back.z};
      for (int i = 0; i < 3; ++i) {
        mpq_class err = abs(Q(g[i]) - Q(c[i]));
        mpq_class bound = abs(Q(c[i]));
        mpq_div_2exp(bound.get_mpq_t(), bound.get_mpq_t(), 50);
        VREQ(err <= bound, "double-roundtrip", std::hexfloat << c[i] << " came back as " << g[i]);
      }
      Count("op_double_roundtrip");
    }
    Observe(HashStr(S(p.x())));
    NonTrivial();
    if (WantSample()) {
      std::ostringstream o;
      o << "FromDoublesExact(" << c[0] << "," << c[1] << "," << c[2] << ") = " << S(p.x())
        << "," << S(p.y()) << "," << S(p.z()) << " / " << S(p.w());
      Sample(o.str());
    }
  }
  // Quantized conversion: the nearest multiple of 2^min_exponent.
  for (int t = 0; t < 3; ++t) {
    int min_exponent = (int)r.range(-60, 0);
    double c[3];
    for (double& x : c) {
      switch (r.below(3)) {
        case 0: x = RandDouble(r); break;
        case 1:  // exactly at or next to a half way point
          x = ldexp((double)r.range(-2000, 2000) + 0.5, min_exponent);
          if (r.coin()) x = nextafter(x, r.coin() ? 1e300 : -1e300);
          break;
        default: x = ldexp((double)r.range(-100000000, 100000000), (int)r.range(-70, 10));
      }
      if (fabs(x) > 1e80) x = ldexp(x, -900);
    }
    HomoPoint3 p = HomoPoint3::FromDoubles(min_exponent, c[0], c[1], c[2]);
    mpz_class w = Z(p.w());
    VREQ(w != 0, "from-doubles", "w is zero");
    const mpz_class n[3] = {Z(p.x()), Z(p.y()), Z(p.z())};
    mpq_class grain(1);
    mpq_div_2exp(grain.get_mpq_t(), grain.get_mpq_t(), -min_exponent);
    for (int i = 0; i < 3; ++i) {
      mpq_class v(n[i], w);
      v.canonicalize();
      mpq_class m = v / grain;
      m.canonicalize();
      mpq_class err = abs(v - Q(c[i])) * 2;
      VREQ(m.get_den() == 1 && err <= grain, "from-doubles-quantize",
           std::hexfloat << "FromDoubles(2^" << std::dec << min_exponent << ", " << std::hexfloat
           << c[i] << ") gave " << v.get_str());
    }
    Count("op_from_doubles_quantized");
  }
  // A point with a large or negative denominator, to doubles.
  {
    mpz_class w;
    size_t bits = r.chance(1, 2) ? 60 : 400;
    do { w = RandZ(r, bits); } while (w == 0);
    mpz_class n[3];
    for (auto& x : n) x = RandZ(r, bits);
    HomoPoint3 p(B(n[0]), B(n[1]), B(n[2]), B(w));
    auto d = p.GetDoublePoint3();
    const double g[3] = {d.x, d.y, d.z};
    for (int i = 0; i < 3; ++i) {
      mpq_class v(n[i], w);
      v.canonicalize();
      mpq_class err = abs(Q(g[i]) - v);
      mpq_class bound = abs(v);
      mpq_div_2exp(bound.get_mpq_t(), bound.get_mpq_t(), 48);
      VREQ(err <= bound, "point-to-double", "GetDoublePoint3 of " << v.get_str() << " gave " << g[i]);
    }
    Count("op_point_to_double");
  }
}

// ---------------------------------------------------------------------------
namespace {

mpz_class ZU(const BigUInt& v) {
  std::vector<uint64_t> w(v.used_words());
  for (size_t i = 0; i < w.size(); ++i) w[i] = v.word(i).low_uint64();
  mpz_class z;
  mpz_import(z.get_mpz_t(), w.size(), -1, 8, 0, 0, w.data());
  return z;
}

BigUInt U(const mpz_class& z) {
  bool was;
  BigUInt r = B(z).GetUIntAbs(&was);
  VREQ(ZU(r) == abs(z), "biguint-construct", z.get_str());
  return r;
}

uint64_t RandU64(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.below(4);
    case 1: return ~0ull - r.below(4);
    case 2: return (1ull << 63) - 1 + r.below(3);
    case 3: return 1ull << r.below(64);
    case 4: return (1ull << 32) - 1 + r.below(3);
    default: return r.next() >> r.below(64);
  }
}

}  // namespace

PROPERTY(B05) {
  typedef unsigned __int128 u128;
  for (int t = 0; t < 20; ++t) {
    const uint64_t a = RandU64(r), b = RandU64(r), c = RandU64(r);
    const bool ci = r.coin();
    const BigUIntWord A(a), Bw(b), C(c);
    auto d = [&](const char* op) {
      std::ostringstream o;
      o << op << " a=" << a << " b=" << b << " c=" << c << " carry=" << ci;
      return o.str();
    };
    bool co = r.coin();
    u128 s = (u128)a + b + ci;
    Require(A.Add(Bw, ci, &co).low_uint64() == (uint64_t)s && co == (bool)(s >> 64), "word-add-carry", d("Add"));
    s = (u128)a + b; co = r.coin();
    Require(A.Add(Bw, &co).low_uint64() == (uint64_t)s && co == (bool)(s >> 64), "word-add", d("Add"));
    s = (u128)a + ci; co = r.coin();
    Require(A.Add(ci, &co).low_uint64() == (uint64_t)s && co == (bool)(s >> 64), "word-add-bool", d("Add"));
    Require(A.Add(Bw).low_uint64() == a + b, "word-add-plain", d("Add"));
    Require(A.Subtract(Bw).low_uint64() == a - b, "word-sub-plain", d("Subtract"));
    co = r.coin();
    Require(A.Subtract(Bw, ci, &co).low_uint64() == a - b - ci && co == ((u128)a < (u128)b + ci), "word-sub-carry", d("Subtract"));
    co = r.coin();
    Require(A.Subtract(Bw, &co).low_uint64() == a - b && co == (a < b), "word-sub", d("Subtract"));
    co = r.coin();
    Require(A.Subtract(ci, &co).low_uint64() == a - ci && co == (a < (uint64_t)ci), "word-sub-bool", d("Subtract"));
    BigUIntWord hi;
    u128 p = (u128)a * b;
    Require(A.Multiply(Bw, &hi).low_uint64() == (uint64_t)p && hi.low_uint64() == (uint64_t)(p >> 64), "word-mul", d("Multiply"));
    __int128 sp = (__int128)(int64_t)a * (int64_t)b;
    Require(A.MultiplySigned(Bw, &hi).low_uint64() == (uint64_t)sp && hi.low_uint64() == (uint64_t)((u128)sp >> 64), "word-mul-signed", d("MultiplySigned"));
    p = (u128)a * b + c + ci;
    Require(A.MultiplyAdd(Bw, C, ci, &hi).low_uint64() == (uint64_t)p && hi.low_uint64() == (uint64_t)(p >> 64), "word-muladd", d("MultiplyAdd"));
    unsigned sh = (unsigned)r.below(64);
    u128 full = ((u128)b << 64) | a;
    Require(A.ShiftRight(Bw, sh).low_uint64() == (uint64_t)(full >> sh), "word-shr2", d("ShiftRight"));
    Require((A << sh).low_uint64() == a << sh && (A >> sh).low_uint64() == a >> sh, "word-shift", d("shift"));
    Require(((A & Bw).low_uint64() == (a & b)) && ((A | Bw).low_uint64() == (a | b)) &&
            ((A ^ Bw).low_uint64() == (a ^ b)) && ((~A).low_uint64() == ~a), "word-bits", d("bits"));
    Require((A < Bw) == (a < b) && (A <= Bw) == (a <= b) && (A > Bw) == (a > b) && (A >= Bw) == (a >= b) &&
            (A == Bw) == (a == b) && (A != Bw) == (a != b) &&
            A.Compare(Bw) == (a < b ? -1 : a > b), "word-compare", d("compare"));
    if (b) Require((A / Bw).low_uint64() == a / b && (A % Bw).low_uint64() == a % b, "word-div", d("div"));
    unsigned top = 0;
    for (uint64_t v = a; v; v >>= 1) ++top;
    Require(A.GetHighestSetBit() == top, "word-highest", d("GetHighestSetBit"));
    unsigned tz = 0;
    if (a) while (!((a >> tz) & 1)) ++tz;
    Require(A.GetTrailingZeros() == tz, "word-trailing", d("GetTrailingZeros"));
    Require(A.GetTrailingZerosUnaccelerated() == tz, "word-trailing-unaccelerated", d("GetTrailingZeros"));
    Require(BigIntWord(A.SignExtension()) == ((int64_t)a < 0 ? -1 : 0), "word-signext", d("SignExtension"));
    if ((int64_t)a != INT64_MIN) {
      uint64_t want = (int64_t)a < 0 ? 0 - a : a;
      Require(A.SignedAbs().low_uint64() == want, "word-abs", d("SignedAbs"));
    }
    int shift = (int)r.range(0, 900);
    double dd = A.ToDoubleWithShift(shift);
    VREQ(dd == ldexp((double)a, shift), "word-to-double", d("ToDoubleWithShift") << " " << shift);
    Count("word_ops", 20);
  }
  for (int t = 0; t < 4; ++t) {
    mpz_class az = abs(Fresh(r)), bz = abs(Fresh(r));
    BigUInt a = U(az), b = U(bz);
    size_t sh = r.chance(1, 3) ? 64 * r.below(4) : r.below(200);
    // Left shifts.
    mpz_class want = az << sh;
    VREQ(ZU(a << sh) == want, "uint-shift", az.get_str() << " << " << sh << " gave " << ZU(a << sh).get_str());
    VREQ((a >= b) == (az >= bz), "uint-ge", az.get_str() << " >= " << bz.get_str());
    const mpz_class& hi = az >= bz ? az : bz;
    const mpz_class& lo = az >= bz ? bz : az;
    mpz_class diff = hi - lo;
    BigUInt hb = U(hi);
    VREQ(ZU(hb.Subtract(U(lo))) == diff, "uint-sub", hi.get_str() << " - " << lo.get_str());
    uint64_t m = RandU64(r);
    want = az * ZFromU64(m);
    VREQ(ZU(a.Multiply(BigUIntWord(m))) == want, "uint-mul", az.get_str() << " * " << m);
    // add <<= shift, with carries that ripple into new words
    {
      BigUInt acc = U(az);
      mpz_class accz = az;
      uint64_t add = RandU64(r);
      size_t s2 = r.below(mpz_sizeinbase(az.get_mpz_t(), 2) + 70);
      if (r.coin()) s2 = s2 / 64 * 64;
      if (r.chance(1, 3)) {
        // all ones from s2 upwards: the carry leaves the top
        mpz_class ones = 1;
        ones <<= 64 * (1 + r.below(4));
        ones -= 1;
        accz = ones;
        acc = U(accz);
        s2 = r.below(64);
      }
      acc.AddLeftShifted(BigUIntWord(add), s2);
      accz += ZFromU64(add) << s2;
      VREQ(ZU(acc) == accz, "uint-add-shifted", "AddLeftShifted(" << add << ", " << s2
           << ") gave " << ZU(acc).get_str() << " expected " << accz.get_str());
    }
    {
      mpz_class base = (lo << sh) + diff;
      BigUInt acc = U(base);
      acc.SubtractLeftShifted(U(lo), sh);
      VREQ(ZU(acc) == diff, "uint-sub-shifted", "SubtractLeftShifted");
    }
    if (bz != 0) {
      mpz_class q, rem;
      mpz_tdiv_qr(q.get_mpz_t(), rem.get_mpz_t(), az.get_mpz_t(), bz.get_mpz_t());
      BigUInt ur;
      BigUInt uq = a.DivideRemainder(b, &ur);
      VREQ(ZU(uq) == q && ZU(ur) == rem, "uint-div", az.get_str() << " / " << bz.get_str() << " gave "
           << ZU(uq).get_str() << " rem " << ZU(ur).get_str());
    }
    Count("uint_ops", 7);
    Observe(mpz_get_ui(az.get_mpz_t()));
    Observe(mpz_get_ui(bz.get_mpz_t()));
    if (WordsOf(az).size() > 1) NonTrivial();
    if (WantSample()) Sample("BigUInt " + az.get_str() + " op " + bz.get_str() + " shift " + std::to_string(sh));
  }
}

VERIF_MAIN
