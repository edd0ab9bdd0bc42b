From a658fb1fa07c81e4d21328f424a5d66a7e9e0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 01/50] fix: InputStream::expectReal rejected equal and
 accepted different values

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index cdf5cc2..1ea9309 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2651,7 +2651,7 @@ public:
 
 	void expectReal(Real expected) {
 		Real seen = real();
-		if (details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
+		if (!details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
 			*out << "Expected " << expected << " but got " << seen << "!";
 			if (std::isfinite(seen) and std::isfinite(expected)) {
 				Real absDiff = std::abs(seen-expected);
-- 
2.43.0


From 9d33a6cbe079bc392d18b3de8b347d72e53cce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 02/50] fix: realStrict accepted redundant leading zeros

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 1ea9309..83d517c 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -140,7 +140,7 @@ constexpr std::string_view TEXT_ELLIPSIS                = "[...]";
 constexpr auto REGEX_OPTIONS                            = std::regex::nosubs | std::regex::optimize;
 inline const std::regex INTEGER_REGEX("0|-?[1-9][0-9]*", REGEX_OPTIONS);
 inline const std::regex REAL_REGEX("[+-]?(([0-9]*\\.[0-9]+)|([0-9]+\\.)|([0-9]+))([eE][+-]?[0-9]+)?", REGEX_OPTIONS);
-inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))\\.?[0-9]*", REGEX_OPTIONS);
+inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))(\\.[0-9]*)?", REGEX_OPTIONS);
 
 static_assert(2'000'000'000'000'000'000_int < LARGE / 2, "LARGE too small");
 static_assert(LARGE <= std::numeric_limits<Integer>::max() / 2, "LARGE too big");
-- 
2.43.0


From acf5292f3172edbbd647c408c7f8033a1fa0b2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 03/50] fix: use the configured float tolerances for the
 team/answer streams

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 83d517c..dfd0da2 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2905,7 +2905,7 @@ namespace AnswerValidator {
 		juryOut = OutputStream(std::cout);
 
 		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2929,7 +2929,7 @@ namespace OutputValidator {
 
 		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
 		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2952,7 +2952,7 @@ namespace Interactor {
 		toTeam = OutputStream(std::cout);
 
 		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 	}
 
 } // namespace Interactor
-- 
2.43.0


From 272f119b8c432130eb891817b9e1e8b3ed674b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 04/50] fix: do not treat a failed read as end of token or end
 of file

---
 src/validate.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/validate.h b/src/validate.h
index dfd0da2..c6f453c 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2271,6 +2271,10 @@ class InputStream final {
 		judgeAssert<std::runtime_error>(in != nullptr, "InputStream: not initialized!");
 	}
 
+	void checkRead() {
+		judgeAssert<std::runtime_error>(!in->bad(), "InputStream: Could not read!");
+	}
+
 public:
 	InputStream() = default;
 	explicit InputStream(const std::filesystem::path& path,
@@ -2323,6 +2327,7 @@ public:
 			*out << "Missing EOF!";
 			fail();
 		}
+		checkRead();
 	}
 
 	void noteof() {
@@ -2388,6 +2393,7 @@ public:
 		}
 		std::string res;
 		*in >> res;
+		checkRead();
 		if (res.empty()) {
 			*out << "Unexpected EOF!" << onFail;
 		}
-- 
2.43.0


From 91e9d432156b9ce9c07605e8b9eec430394ab34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 05/50] fix: report the line of a rejected newline, not the
 next one

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index c6f453c..87cd186 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2685,9 +2685,9 @@ private:
 					*in >> tmp;
 					buffer += tmp;
 				} else if (in->peek() == std::char_traits<char>::to_int_type(NEWLINE)) {
-					line++;
 					in->get();
 					if (in->tellg() < originalPos) {
+						line++;
 						buffer.clear();
 					} else {
 						buffer += ' ';
-- 
2.43.0


From 2f46f83f6bfc5995960fc73fe34bf2d0ed594943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 06/50] fix: Multipass must not accept a pass whose counter,
 state or next input could not be stored

---
 src/validate.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/validate.h b/src/validate.h
index 87cd186..1ff1ae2 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2984,6 +2984,7 @@ namespace Multipass {
 		if (std::filesystem::exists(path)) {
 			std::ifstream in(path);
 			in >> pass;
+			judgeAssert<std::runtime_error>(!in.fail(), "Multipass::init(): Could not read file: .pass");
 			pass++;
 			if ((pass & 1) != 0) {
 				std::swap(nextfile, prevfile);
@@ -2997,6 +2998,8 @@ namespace Multipass {
 		nextpass = OutputStream(details::nextpassBuffer);
 		std::ofstream out(path);
 		out << pass;
+		out.close();
+		judgeAssert<std::runtime_error>(out.good(), "Multipass::init(): Could not write file: .pass");
 	}
 
 	[[noreturn]] void NEXT() {
@@ -3004,7 +3007,13 @@ namespace Multipass {
 			std::ofstream file(std::filesystem::path(arguments[3]) / "nextpass.in");
 			judgeAssert<std::runtime_error>(file.good(), "NEXT(): Could not open file: nextpass.in");
 			file << details::nextpassBuffer.str();
+			file.close();
+			judgeAssert<std::runtime_error>(file.good() and details::nextpassBuffer.good(), "NEXT(): Could not write file: nextpass.in");
 		}
+		nextstate << [](std::ostream& os) -> std::ostream& {
+			judgeAssert<std::runtime_error>(os.flush().good(), "NEXT(): Could not write file: .state");
+			return os;
+		};
 		exitVerdict(Verdicts::AC);
 	}
 	[[noreturn]] std::ostream& NEXT(std::ostream& os) {
-- 
2.43.0


From 1dc5cfd71c53a754505f81df4321e84494eff4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 07/50] fix: number reads must not overflow the stack on long
 tokens

std::regex_match of libstdc++ recurses per character, a token of about 100k
digits crashed the validator instead of being judged.
---
 src/validate.h | 69 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 63 insertions(+), 6 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 1ff1ae2..fd3ff46 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -949,6 +949,54 @@ namespace details {
 		return true;
 	}
 
+	// These match the same tokens as INTEGER_REGEX, REAL_REGEX and STRICT_REAL_REGEX. They
+	// are written by hand since std::regex_match may exhaust the stack on long tokens.
+	constexpr std::size_t skipDigits(std::string_view s, std::size_t i) {
+		while (i < s.size() and isDigit(s[i])) i++;
+		return i;
+	}
+
+	// "0" or a sequence of digits without leading zero
+	constexpr std::size_t skipNumber(std::string_view s, std::size_t i) {
+		if (i < s.size() and s[i] == '0') return i + 1;
+		return skipDigits(s, i);
+	}
+
+	constexpr bool isIntegerToken(std::string_view s) {
+		if (s == "0") return true;
+		std::size_t begin = !s.empty() and s[0] == '-' ? 1 : 0;
+		if (begin == s.size() or s[begin] == '0') return false;
+		return skipDigits(s, begin) == s.size();
+	}
+
+	constexpr bool isRealToken(std::string_view s) {
+		std::size_t begin = !s.empty() and (s[0] == '+' or s[0] == '-') ? 1 : 0;
+		std::size_t i = skipDigits(s, begin);
+		std::size_t digits = i - begin;
+		if (i < s.size() and s[i] == '.') {
+			std::size_t end = skipDigits(s, i + 1);
+			digits += end - (i + 1);
+			i = end;
+		}
+		if (digits == 0) return false;
+		if (i < s.size() and (s[i] == 'e' or s[i] == 'E')) {
+			i++;
+			if (i < s.size() and (s[i] == '+' or s[i] == '-')) i++;
+			std::size_t end = skipDigits(s, i);
+			if (end == i) return false;
+			i = end;
+		}
+		return i == s.size();
+	}
+
+	constexpr bool isStrictRealToken(std::string_view s) {
+		std::size_t begin = !s.empty() and s[0] == '-' ? 1 : 0;
+		std::size_t i = skipNumber(s, begin);
+		if (i == begin) return false;
+		if (i < s.size() and s[i] == '.') i = skipDigits(s, i + 1);
+		return i == s.size();
+	}
+
 	template<typename T>
 	bool parse(std::string_view s, T& res) {
 		const char* begin = s.data();
@@ -978,14 +1026,14 @@ namespace details {
 }
 
 boolean<Integer> isInteger(const std::string& s) {
-	if (!std::regex_match(s, INTEGER_REGEX)) return boolean<Integer>(false);
+	if (!details::isIntegerToken(s)) return boolean<Integer>(false);
 	Integer value = 0;
 	if (!details::parse<Integer>(s, value)) return boolean<Integer>(false);
 	return boolean<Integer>(true, value);
 }
 
 boolean<Real> isReal(const std::string& s) {
-	if (!std::regex_match(s, REAL_REGEX)) return boolean<Real>(false);
+	if (!details::isRealToken(s)) return boolean<Real>(false);
 	Real value = 0;
 	if (!details::parse<Real>(s, value)) return boolean<Real>(false);
 	return boolean<Real>(true, value);
@@ -2360,7 +2408,11 @@ public:
 
 private:
 	void check(const std::string& token, const std::regex& pattern) {
-		if (!std::regex_match(token, pattern)) {
+		check(token, std::regex_match(token, pattern));
+	}
+
+	void check(const std::string& token, bool matches) {
+		if (!matches) {
 			*out << "Token \"" << token << "\" does not match pattern!";
 			fail();
 		}
@@ -2476,7 +2528,9 @@ public:
 	}
 
 	Integer integer() {
-		return parse<Integer>(string(INTEGER_REGEX));
+		std::string t = string();
+		check(t, details::isIntegerToken(t));
+		return parse<Integer>(t);
 	}
 
 	Integer integer(Integer lower, Integer upper) {
@@ -2522,7 +2576,9 @@ public:
 	// this does not allow NaN or Inf!
 	// However, those should never be desired.
 	Real real() {
-		return parse<Real>(string(REAL_REGEX));
+		std::string t = string();
+		check(t, details::isRealToken(t));
+		return parse<Real>(t);
 	}
 
 	Real real(Real lower, Real upper) {// uses eps
@@ -2568,7 +2624,8 @@ public:
 	}
 
 	Real realStrict(Real lower, Real upper, Integer minDecimals, Integer maxDecimals) {// does not use eps
-		std::string t = string(STRICT_REAL_REGEX);
+		std::string t = string();
+		check(t, details::isStrictRealToken(t));
 		auto dot = t.find('.');
 		Integer decimals = dot == std::string::npos ? 0 : t.size() - dot - 1;
 		if (decimals < minDecimals or decimals >= maxDecimals) {
-- 
2.43.0


From 5394a702cff2059205683bacb2b2e8c5a5d7648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 08/50] fix: numeric command line arguments like +-5 are
 malformed

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index fd3ff46..b0e6042 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1001,7 +1001,7 @@ namespace details {
 	bool parse(std::string_view s, T& res) {
 		const char* begin = s.data();
 		const char* end = s.data() + s.size();
-		if (!s.empty() && s[0] == '+') begin++;
+		if (s.size() > 1 and s[0] == '+' and s[1] != '-') begin++;
 		auto [ptr, ec] = std::from_chars(begin, end, res);
 		return ptr == end and ec == std::errc();
 	}
-- 
2.43.0


From 204577e04fb86a84feb9b3898b422b7564fb7c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 09/50] fix: Random::real() must not return 1

---
 src/validate.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index b0e6042..331dd6e 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1439,15 +1439,19 @@ namespace Random {
 	}
 
 	Real real() {// in [0, 1)
-		UInteger mantissa = details::randomNumberGenerator() | (1ull << 63);
-		int exponent = -64;
-		UInteger x;
-		do {
-			x = details::randomNumberGenerator();
-			//count trailing (or leading) zeroes in x
-			exponent -= static_cast<int>(std::bitset<64>(~x & (x-1)).count());
-		} while (x == 0);
-		return std::ldexp(mantissa, exponent);
+		while (true) {
+			UInteger mantissa = details::randomNumberGenerator() | (1ull << 63);
+			int exponent = -64;
+			UInteger x;
+			do {
+				x = details::randomNumberGenerator();
+				//count trailing (or leading) zeroes in x
+				exponent -= static_cast<int>(std::bitset<64>(~x & (x-1)).count());
+			} while (x == 0);
+			// the conversion of mantissa can round up to 2^64
+			Real res = std::ldexp(mantissa, exponent);
+			if (res < 1.0_real) return res;
+		}
 	}
 	Real real(Real upper) {// in [0, upper)
 		judgeAssert<std::domain_error>(std::isfinite(upper), "Random::real(): Upper must be finite!");
-- 
2.43.0


From a18ce7b1b6af2cb43895cd5a1ef3600d2e77fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 10/50] fix: Random::normal() used the square root of the
 standard deviation

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 331dd6e..658362f 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1484,7 +1484,7 @@ namespace Random {
 		Real u1 = real();
 		Real u2 = real();
 		Real res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-		return std::sqrt(stddev) * res + mean;
+		return stddev * res + mean;
 	}
 	Real normal(Real lower, Real upper, Real mean, Real stddev) {// in [lower, upper)
 		judgeAssert<std::domain_error>(!std::isnan(lower), "Random::normal(): Lower must not be NaN!");
@@ -1498,10 +1498,10 @@ namespace Random {
 			// Box-Muller-Methode
 			// https://en.wikipedia.org/wiki/Box%E2%80%93Muller_transform
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::sin(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 		}
 	}
-- 
2.43.0


From 79019eaa1023dfa1daf5e7f0781ef4db377eab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 11/50] fix: Random::geometric() overflowed for small p

---
 src/validate.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 658362f..a76937b 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1523,16 +1523,22 @@ namespace Random {
 
 	Integer geometric(Real p) {// theoretically in [0, inf)
 		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
-		return std::llround(std::floor(std::log(real()) / std::log1p(-p)));
+		Real res = std::floor(std::log(real()) / std::log1p(-p));
+		// note that this is also inf for p = 0
+		if (res >= std::ldexp(1.0_real, 63)) return std::numeric_limits<Integer>::max();
+		return std::llround(res);
 	}
 	Integer geometric(Integer lower, Integer upper, Real p) {// in [lower, upper)
 		judgeAssert<std::invalid_argument>(lower < upper, "Random::geometric(): Lower must be less than upper!");
-		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
+		judgeAssert<std::domain_error>(0.0_real < p and p < 1.0_real, "Random::geometric(): p must be in (0,1)!");
+		UInteger range = static_cast<UInteger>(upper) - static_cast<UInteger>(lower);
 		while (true) {
 			// https://en.wikipedia.org/wiki/Geometric_distribution
 			// "The exponential distribution is the continuous analogue of the geometric distribution[...]"
-			Integer res = lower + std::llround(std::floor(std::log(real()) / std::log1p(-p)));
-			if (res < upper) return res;
+			Real res = std::floor(std::log(real()) / std::log1p(-p));
+			if (res >= static_cast<Real>(range)) continue;
+			UInteger offset = static_cast<UInteger>(res);
+			if (offset < range) return static_cast<Integer>(static_cast<UInteger>(lower) + offset);
 		}
 	}
 
-- 
2.43.0


From a7302df07ef44ca24d4efdd830b97de5948187ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 12/50] fix: Random::binomial() overflowed for small p or large
 n

---
 src/validate.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index a76937b..f2b4b4e 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1555,8 +1555,9 @@ namespace Random {
 			Real lg = std::log1p(-p);
 			if (lg >= 0) return swap ? n : 0;
 			do {
-				y += std::llround(std::floor(std::log(real()) / lg)) + 1;
-				if (y > n) return swap ? n - res : res;
+				Real step = std::floor(std::log(real()) / lg);
+				if (step >= static_cast<Real>(n - y)) return swap ? n - res : res;
+				y += std::llround(step) + 1;
 				res++;
 			} while (true);
 		} else {
@@ -1587,7 +1588,7 @@ namespace Random {
 				if (!initialized) {
 					alpha = (2.83_real + 5.1_real / b) * spq;
 					lpq = std::log(p / q);
-					m = std::round(std::floor((n + 1) * p));
+					m = std::round(std::floor((n + 1.0_real) * p));
 					h = std::lgamma(m + 1) + std::lgamma(n - m + 1);
 					initialized = true;
 				}
-- 
2.43.0


From 0f796fd7a7432eee1e7aa315084a11ea39b6cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 13/50] fix: Random::maximum() and Random::minimum() overflowed
 for wide ranges

---
 src/validate.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index f2b4b4e..0d33095 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1617,8 +1617,12 @@ namespace Random {
 		} else {
 			UInteger ul = static_cast<UInteger>(lower);
 			UInteger uu = static_cast<UInteger>(upper);
-			UInteger res = static_cast<UInteger>((uu - ul) * std::exp2(std::log2(real()) / n));
-			return std::min(upper - 1, static_cast<Integer>(res + ul));
+			UInteger range = uu - ul;
+			Real tmp = range * std::exp2(std::log2(real()) / n);
+			// the product can be rounded up to (or even above) range
+			UInteger res = range - 1;
+			if (tmp < static_cast<Real>(range)) res = std::min(res, static_cast<UInteger>(tmp));
+			return static_cast<Integer>(res + ul);
 		}
 	}
 	Integer maximum(Integer upper, Integer n) {
@@ -1626,7 +1630,8 @@ namespace Random {
 	}
 
 	Integer minimum(Integer lower, Integer upper, Integer n) {// in [lower, upper)
-		return upper - 1 - maximum(0, upper - lower, n);
+		UInteger offset = static_cast<UInteger>(upper) - 1 - static_cast<UInteger>(maximum(lower, upper, n));
+		return static_cast<Integer>(static_cast<UInteger>(lower) + offset);
 	}
 	Integer minimum(Integer upper, Integer n) {
 		return minimum(0, upper, n);
-- 
2.43.0


From fc6e8c9e1c5f42619ae47622ddac0cb7af16bbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 14/50] fix: Random::prime() returned 2 for upper=2 and refused
 wide ranges

---
 src/validate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 0d33095..3b0478a 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1653,8 +1653,9 @@ namespace Random {
 		judgeAssert<std::invalid_argument>(lower < upper, "Random::prime(): Lower must be less than upper!");
 		Integer sampleL = lower <= 2 ? 0 : (lower / 2);
 		Integer sampleU = upper / 2;
-		if (sampleL < sampleU) {
-			for (Integer i = 0; i < details::PRIME_TRIALS and i < 4 * (upper - lower); i++) {
+		UInteger range = static_cast<UInteger>(upper) - static_cast<UInteger>(lower);
+		if (sampleL < sampleU and upper > 2) {
+			for (Integer i = 0; i < details::PRIME_TRIALS and static_cast<UInteger>(i) / 4 < range; i++) {
 				Integer res = std::max<Integer>(2, 2*integer(sampleL, sampleU) | 1);
 				if (isPrime(res)) return res;
 			}
-- 
2.43.0


From aa368c5415f0898813b3c96d1a32c548e9ed03ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 15/50] fix: Random::perm() checks all cycle lengths before
 using them

---
 src/validate.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 3b0478a..40bf95b 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1777,11 +1777,13 @@ namespace Random {
 	}
 
 	std::vector<Integer> perm(const std::vector<Integer>& cycles, Integer offset = 0) {
+		for (Integer length : cycles) {
+			judgeAssert<std::invalid_argument>(length > 0, "Random::perm(): Cycle lengths must be positive!");
+		}
 		auto p = perm(std::accumulate(cycles.begin(), cycles.end(), 0_int));
 		std::vector<Integer> res(p.size());
 		Integer tmp = 0;
 		for (std::size_t i = 0; i < cycles.size(); tmp += cycles[i], i++) {
-			judgeAssert<std::invalid_argument>(cycles[i] > 0, "Random::perm(): Cycle lengths must be positive!");
 			for (Integer j = tmp; j + 1 < tmp + cycles[i]; j++) {
 				res[p[j]] = p[j + 1] + offset;
 			}
-- 
2.43.0


From f404354ed51878c5197d590714a184c3dee09f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 16/50] fix: Random::perm() must keep fix points which are
 listed twice

---
 src/validate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 40bf95b..05f7077 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1798,7 +1798,8 @@ namespace Random {
 		std::vector<Integer> res(count, -1);
 		for (Integer x : fix) {
 			judgeAssert<std::invalid_argument>(offset <= x and x < offset + count, "Random::perm(): fix point outside of permutation!");
-			std::swap(tmp[x - offset], res[x - offset]);
+			tmp[x - offset] = -1;
+			res[x - offset] = x - offset;
 		}
 		shuffle(tmp);
 		std::size_t i = 0;
-- 
2.43.0


From 413e0b6a269ff227d3d654b8345c47c7fc3e448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 17/50] fix: Random::convex() must not return a degenerated
 polygon

---
 src/validate.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/validate.h b/src/validate.h
index 05f7077..e91dd74 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1923,6 +1923,11 @@ namespace Random {
 				dirs[i] = {x[i], y[i]};
 			}
 			::details::cyclicSort(dirs);
+			// if all directions are parallel the polygon has no area
+			auto parallel = [&dirs](const Point& dir) {
+				return getX(dirs[0]) * getY(dir) == getY(dirs[0]) * getX(dir);
+			};
+			if (std::all_of(dirs.begin(), dirs.end(), parallel)) continue;
 
 			std::vector<Point> res = {{0, 0}};
 			Integer maxX = 0;
-- 
2.43.0


From 048edb8140d7b5d26c155fa94ceb5c5a7232fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 18/50] fix: Random::nonCollinearPoints() could throw or return
 collinear points

---
 src/validate.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index e91dd74..d9f5230 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1954,10 +1954,14 @@ namespace Random {
 		judgeAssert<std::invalid_argument>(dim <= 0x1FFF'FFFF, "Random::nonCollinearPoints(): dim too large!");
 		judgeAssert<std::invalid_argument>(n >= 0, "Random::nonCollinearPoints(): dim must be non negative!");
 		judgeAssert<std::invalid_argument>(dim > n, "Random::nonCollinearPoints(): dim too small!");
+		if (n == 0) return {};
+		// the points are only guaranteed to fit if p <= 2*dim - 2
 		Integer p = prime(dim - 1, 2*dim + 2);
+		while (p > 2*dim - 2) p = prime(dim - 1, 2*dim + 2);
 		Integer rotA = 0;
 		Integer rotB = 0;
-		while (rotA == 0 and rotB == 0) {
+		// the transformation must be invertible
+		while ((rotA * rotA + rotB * rotB) % p == 0) {
 			rotA = integer(0, p);
 			rotB = integer(0, p);
 		}
-- 
2.43.0


From ecb29774f8997a857b3eb507a8f95237d4178b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 19/50] fix: Random::seed() only needs the documented interface
 of an engine

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index d9f5230..b7de8da 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1391,7 +1391,7 @@ namespace Random {
 	}
 
 	void seed(UInteger seed) {
-		details::randomNumberGenerator.seed(seed);
+		details::randomNumberGenerator = RandomEngine(seed);
 	}
 
 	//========================================================================//
-- 
2.43.0


From d481422044a772d86cc4eceb380d1777a4d14bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 20/50] fix: Graph::range() ignored minId and did not compile
 without edge data

---
 src/graph_gen.h | 1966 +++++++++++++++++++++++------------------------
 1 file changed, 982 insertions(+), 984 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index e9d0259..c3756c6 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -1,984 +1,982 @@
-//============================================================================//
-// graph_gen.h                                                                //
-//============================================================================//
-// This header can be used to Generate graphs. We support:                    //
-// - directed, undirected and weighted graphs                                 //
-// - uniform tree sampling                                                    //
-// - erdös renyi random graphs                                                //
-// - random graphs with a given degree sequence                               //
-// - random graphs with a power low distribution                              //
-// - various operations to construct graphs                                   //
-// This header requires validate.h zo to generate random graphs in a          //
-// deterministic and reproducable fashion.                                    //
-//============================================================================//
-//version 1.0.11                                                              //
-//https://github.com/mzuenni/icpc-header                                      //
-//============================================================================//
-
-#ifndef GRAPH_GENERATOR_H
-#define GRAPH_GENERATOR_H
-
-#include <cassert>
-#include <cstddef>
-#include <deque>
-#include <iostream>
-#include <ostream>
-#include <optional>
-#include <ostream>
-#include <queue>
-#include <random>
-#include <set>
-#include <utility>
-#include <ranges>
-#include <vector>
-#include "validate.h"
-
-namespace GraphDetail {
-	struct NoData final {};
-	constexpr NoData NOTHING;
-
-	// EdgeWrapper may be returned by some function
-	template<typename E, typename = void>
-	struct EdgeWrapper final {
-		const Integer from, to;
-		E& data;
-		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
-
-		E& operator*() {
-			return data;
-		}
-		const E& operator*() const {
-			return data;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-	};
-	template<typename E>
-	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
-		const Integer from, to;
-		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
-		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
-
-		E& operator*() const {return NOTHING;}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-	};
-
-	// EdgeType is the internel representation of an edge that should never get exposed!
-	template<typename E>
-	struct EdgeType final {
-		// we use key(from, to) = from^to for efficiency
-		// the key function must have the following properties:
-		// key(a, b) == key(b, a)
-		// to1 != to2 <=> key(from, to1) != key(from, to2)
-		// from1 != from2 <=> key(from1, to) != key(from2, to)
-		Integer fromXorTo, to;
-		E data;
-		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
-		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
-	};
-
-	template<typename E>
-	struct EdgePointerCompair final {
-		using is_transparent = std::true_type;
-		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
-			return t->fromXorTo < u->fromXorTo;
-		}
-		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
-			return t->fromXorTo < u;
-		}
-		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
-			return t < u->fromXorTo;
-		}
-	};
-
-	template<typename E, bool DIR>
-	class GraphType final {
-		// do not change!
-		static constexpr Integer DEFAULT_MIN_ID = 0;
-
-		template<typename, bool> friend class GraphType;
-		using EdgeTypeValue = E;
-		using Edge = EdgeWrapper<E>;
-		using ConstEdge = EdgeWrapper<const E>;
-		using InternalEdge = EdgeType<E>;
-		using Graph = GraphType<E, DIR>;
-
-		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
-		std::deque<InternalEdge> edges;
-		Integer minId;
-
-		inline void assertNode(Integer id) const {
-			if (id < minId or id >= minId + nodeCount()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
-			}
-		}
-
-		auto addEdge(InternalEdge* e) {
-			Integer from = e->fromXorTo ^ e->to;
-			Integer to = e->to;
-			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
-			return adj[from - minId].emplace(e).first;
-		}
-
-		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
-			edges.emplace_back(from ^ to, to, data);
-		}
-
-		void buildAdj() {
-			for (auto& e : edges) addEdge(&e);
-		}
-	public:
-		// construct empty graph with vertices in [from, to)
-		explicit GraphType(Integer from, Integer to) :
-			adj(to - from),
-			minId(from) {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
-		}
-		// construct empty graph with vertices in [0, n)
-		explicit GraphType(Integer n = 0) :
-			GraphType(DEFAULT_MIN_ID, n) {}
-
-		// copy graphs without breaking pointers
-		GraphType(const Graph& o) :
-			adj(o.size()),
-			edges(o.edges),
-			minId(o.minId) {
-			buildAdj();
-		}
-		Graph& operator=(const Graph& o) {
-			if (&o != this) {
-				adj.clear();
-				adj.resize(o.size());
-				edges = o.edges;
-				minId = o.minId;
-				buildAdj();
-			}
-			return *this;
-		}
-		Graph copy() const {
-			return *this;
-		}
-
-		//basic graph parameters
-		std::size_t size() const {
-			return adj.size();
-		}
-
-		Integer nodeCount() const {
-			return static_cast<Integer>(adj.size());
-		}
-
-		Integer edgeCount() const {
-			return static_cast<Integer>(edges.size());
-		}
-
-		Integer degree(Integer id) const {
-			assertNode(id);
-			return static_cast<Integer>(adj[id - minId].size());
-		}
-
-		Integer getMinId() const {
-			return minId;
-		}
-
-		Graph& setMinId(Integer newminId) {
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				Integer from = e.fromXorTo ^ e.to;
-				Integer to = e.to;
-				from = from - minId + newminId;
-				to = to - minId + newminId;
-				e.fromXorTo = from ^ to;
-				e.to = to;
-			}
-			minId = newminId;
-			buildAdj();
-			return *this;
-		}
-
-		Integer getNextId() const {
-			return minId + nodeCount();
-		}
-
-		Graph& normalize() {
-			return setMinId(DEFAULT_MIN_ID);
-		}
-
-		Graph range(Integer from, Integer to) const {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
-			Graph res(from, to);
-			from = std::max(static_cast<Integer>(0), from - minId);
-			to = std::min(nodeCount(), to - minId);
-			for (const auto& e : getEdges()) {
-				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, e.data);
-				}
-			}
-			return res;
-		}
-
-		// basic graph operations
-		std::optional<Edge> findEdge(Integer from, Integer to) & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return Edge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return ConstEdge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		// ids may change!
-		Edge getEdgeById(std::size_t id) & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		ConstEdge getEdgeById(std::size_t id) const & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		bool hasEdge(Integer from, Integer to) const {
-			assertNode(from);
-			assertNode(to);
-			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
-		}
-
-		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
-			assertNode(from);
-			assertNode(to);
-			judgeAssert(from != to, "Graph: invalid selfloop!");
-			auto it = adj[from - minId].find(from ^ to);
-			if (it == adj[from - minId].end()) {
-				emplaceEdge(from, to, data);
-				it = addEdge(&(edges.back()));
-			} else {
-				(*it)->data = data;
-			}
-			return Edge(from, to, (*it)->data);
-		}
-
-		bool eraseEdge(Integer from, Integer to) {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				InternalEdge* a = *it;
-				InternalEdge* b = &(edges.back());
-				adj[from - minId].erase(a);
-				if constexpr (!DIR) adj[to - minId].erase(a);
-				from = b->fromXorTo ^ b->to;
-				to = b->to;
-				adj[from - minId].erase(b);
-				if constexpr (!DIR) adj[to - minId].erase(b);
-				std::swap(*a, *b);
-				edges.pop_back();
-				if (a != b) addEdge(a);
-				return true;
-			} else {
-				return false;
-			}
-		}
-
-		bool eraseEdge(const Edge& edge) {
-			return eraseEdge(edge.from, edge.to);
-		}
-
-		std::ranges::view auto getEdges() const & {
-			return std::views::all(edges)
-				 | std::views::transform([](const InternalEdge& edge){
-				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto getEdges() & {
-			return std::views::all(edges)
-				 | std::views::transform([](InternalEdge& edge){
-				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) const & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return Edge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto getDegrees() const & {
-			return std::views::all(adj)
-				 | std::views::transform([](auto& n){
-				return n.size();
-			});
-		}
-
-		// more basic graph operations
-		Graph& combine(const Graph& o) {
-			if (&o != this) {
-				while (minId > o.minId) {
-					minId--;
-					adj.emplace_front();
-				}
-				while (minId + nodeCount() < o.minId + o.nodeCount()) {
-					adj.emplace_back();
-				}
-				for (const auto& e : o.edges) {
-					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
-				}
-			}
-			return *this;
-		}
-
-		Graph& append(const Graph& o) {
-			//assert(&o != this); // should work
-			Integer diff = nodeCount() + minId - o.minId;
-			adj.resize(nodeCount() + o.nodeCount());
-			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
-				Integer to = o.edges[i].to;
-				Integer from = o.edges[i].fromXorTo ^ to;
-				addEdge(from + diff, to + diff, o.edges[i].data);
-			}
-			return *this;
-		}
-
-		Graph& permutateEdges() {
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			if constexpr(!DIR) {
-				for (auto& e : edges) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate(const std::vector<Integer>& perm) {
-			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			for (auto& e : edges) {
-				if constexpr (!DIR) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-				e.fromXorTo ^= e.to;
-				e.fromXorTo = perm[e.fromXorTo - minId];
-				e.to = perm[e.to - minId];
-				e.fromXorTo ^= e.to;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate() {
-			std::vector<Integer> perm(size());
-			std::iota(perm.begin(), perm.end(), minId);
-			Random::shuffle(perm.begin(), perm.end());
-			return permutate(perm);
-		}
-
-		Graph subgraph(Integer m) const {
-			if (m >= edgeCount()) return *this;
-			Graph res(minId, minId + nodeCount());
-			auto todo = Random::distinct(m, 0, edgeCount());
-			for (auto id : todo) res.edges.emplace_back(edges[id]);
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true>& reverse() {
-			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				e.to ^= e.fromXorTo;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		GraphType<E, false> undirected() const {
-			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
-			GraphType<E, false> res(minId, minId + nodeCount());
-			for (const auto e : getEdges()) {
-				res.addEdge(e.from, e.to, *e);
-			}
-			return res;
-		}
-
-		template<typename PRED>
-		GraphType<E, true> directed(const PRED&& p) const {
-			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
-			GraphType<E, true> res(minId, minId + nodeCount());
-			for (const auto& e : getEdges()) {
-				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
-					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
-				} else {
-					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
-					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true> directed() const {
-			return directed([](Integer /**/, Integer /**/){
-				return true;
-			});
-		}
-
-		Graph complement() const {
-			Graph res(minId, minId + nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				for (Integer j = 0; j < i; j++) {
-					if (!hasEdge(i + minId, j + minId)) {
-						res.emplaceEdge(i + minId, j + minId);
-					}
-					if constexpr (DIR) {
-						if (!hasEdge(j + minId, i + minId)) {
-							res.emplaceEdge(j + minId, i + minId);
-						}
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		// advanced graph operations
-		Graph power(Integer k) const {
-			Graph res(minId, minId + nodeCount());
-			std::vector<bool> seen(nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
-				for (std::size_t j = 0; j < queue.size(); j++) {
-					auto [c, d] = queue[j];
-					if (d < k) {
-						for (const auto& e : (*this)[c + minId]) {
-							if (!seen[e.to - minId]) {
-								seen[e.to - minId] = true;
-								queue.emplace_back(e.to - minId, d + 1);
-							}
-						}
-					}
-				}
-				for (auto [c, d] : queue) {
-					seen[c] = false;
-					if (i != c) {
-						res.emplaceEdge(i + minId, c + minId);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph& transitiveClosure() const {
-			return power(nodeCount());
-		}
-
-		Graph product(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b - o.minId) * nodeCount() + (a - minId);
-			};
-			for (const auto& e1 : getEdges()) {
-				for (const auto& e2 : o.getEdges()) {
-					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
-					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph cartesian(const Graph& o) const {
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b-o.minId) * nodeCount() + (a-minId);
-			};
-			for (const auto& e : o.getEdges()) {
-				for (Integer i = 0; i < nodeCount(); i++) {
-					Integer from = newId(i + minId, e.from);
-					Integer to = newId(i + minId, e.to);
-					res.emplaceEdge(from, to);
-				}
-			}
-			for (const auto& e : getEdges()) {
-				for (Integer i = 0; i < o.nodeCount(); i++) {
-					Integer from = newId(e.from, i + o.minId);
-					Integer to = newId(e.to, i + o.minId);
-					res.emplaceEdge(from, to);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph strongProduct(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			return o.cartesian(*this).combine(o.product(*this));
-		}
-
-		Graph lineGraph() const {
-			Graph tmp(minId, minId + nodeCount());
-			Integer nextEdge = 0;
-			for (const auto& e : getEdges()) {
-				tmp.emplaceEdge(e.from, e.to, nextEdge);
-				nextEdge++;
-			}
-			tmp.buildAdj();
-			Graph res(nextEdge);
-			for (const auto& e1 : tmp.getEdges()) {
-				if constexpr (DIR) {
-					for (const auto& e2 : tmp[e1.to]) {
-						res.emplaceEdge(*e1, *e2);
-					}
-				} else {
-					for (const auto& e2 : tmp[e1.to]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-					for (const auto& e2 : tmp[e1.from]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-	};
-} // GraphDetail
-
-using NoData = GraphDetail::NoData;
-
-template<typename E = GraphDetail::NoData>
-using Edge = GraphDetail::EdgeWrapper<E>;
-
-template<typename E = GraphDetail::NoData>
-using Graph = GraphDetail::GraphType<E, false>;
-
-template<typename E = GraphDetail::NoData>
-using DiGraph = GraphDetail::GraphType<E, true>;
-
-// n independed vertices in range [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> independent(Integer n) {
-	return GraphDetail::GraphType<E, DIR>(n);
-}
-
-// n connected vertices in range [0, n)
-// if directed all edges go from i to j with i < j
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> clique(Integer n) {
-	// could be implemented as linegraph of a star.
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer j = 0; j < n; j++) {
-		for (Integer i = 0; i < j; i++) {
-			res.addEdge(i, j);
-		}
-	}
-	return res;
-}
-
-// complete bipartite graph with partition [0, n) and [n, n+m)
-// if directed all edges go from [0, n) to [n, n+m)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < m; j++) {
-			res.addEdge(i, n + j);
-		}
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with a given number of edges k
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	Integer lim = n * m;
-	if constexpr (DIR) lim *= 2;
-	auto edges = Random::distinct(k, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x % n;
-		Integer j = x / n + n;
-		if constexpr(DIR) {
-			if (x >= n * m) {
-				j -= m;
-				std::swap(i, j);
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
-}
-
-// star with root = 0 and chilrden [1, leaves]
-// if directed all edges go the root to [1, leaves)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> star(Integer leaves) {
-	return bipartite<E, DIR>(1, leaves);
-}
-
-// path 0-1-2-...-edges with vertices [0, edges]
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> path(Integer edges) {
-	GraphDetail::GraphType<E, DIR> res(edges+1);
-	for (Integer i = 0; i < edges; i++) {
-		res.addEdge(i, i + 1);
-	}
-	return res;
-}
-
-// path 0-1-2-...-n-1-0 with vertices [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E>(n-1);
-	p.addEdge(n - 1, 0);
-	return p;
-}
-
-// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
-template<typename E = NoData>
-Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(path<E>(outer).setMinId(1));
-}
-
-// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-// p is the vertex where clique and path are connected
-template<typename E = NoData>
-Graph<E> lolly(Integer p, Integer c) {
-	return path<E>(p).combine(clique<E>(c).setMinId(p));
-}
-
-// broom graph with a path with p edges [0, p] and a star [p, p+l]
-// p is the vertex where star and path are connected
-template<typename E = NoData>
-Graph<E> broom(Integer p, Integer l) {
-	return path<E>(p).combine(star<E>(l).setMinId(p));
-}
-
-// n times m grid
-// 0-1-...-n-1
-// | |      |
-// n- ... -2*n-1
-// |        |
-// .        .
-//          |
-//        -n*m-1
-template<typename E = NoData>
-Graph<E> grid(Integer n, Integer m) {
-	return path<E>(n-1).cartesian(path<E>(m-1));
-}
-template<typename E = NoData>
-Graph<E> grid(Integer n) {
-	return grid<E>(n, n);
-}
-
-// n dimensional hyper cube with vertices [0, 2^dimension)
-// a-b <=> |a^b|=1
-template<typename E = NoData>
-Graph<E> hypercube(Integer dimension) {
-	if (dimension < 2) return clique<E>(dimension+1);
-	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
-}
-
-// complete tree with root at 0 and all subtrees are consecutive
-// vertices in [0, (children^{level+1}-1)/(children-1))
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
-	if (level <= 2) return star<E, DIR>(children);
-	GraphDetail::GraphType<E, DIR> res(1);
-	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
-	for (Integer i = 0; i < children; i++) {
-		Integer next = res.nodeCount();
-		res.append(sub);
-		res.addEdge(0, next);
-	}
-	return res;
-}
-
-
-// complete boolean lattice i->j <=> i|j==j
-// vertices in [0, 2^level)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
-	GraphDetail::GraphType<E, DIR> res(1 << level);
-	for (Integer i = 0; i < res.nodeCount(); i++) {
-		for (Integer j = 1; j < res.nodeCount(); j*=2) {
-			if ((i | j) == i) {
-				res.addEdge(i, i^j);
-			}
-		}
-	}
-	return res;
-}
-
-// prefix of the rado graph i->j <=> i<j and j[i] == true;
-// vertices in [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> rado(Integer n) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) < i; j++) {
-			if ((i | (1 << j)) == i) {
-				res.addEdge(i, j);
-			}
-		}
-	}
-	return res;
-}
-
-// generate a tree from a pruefer code
-// values should be in [0, sz(code)+2)
-template<typename E = NoData>
-Graph<E> pruefer(const std::vector<Integer>& code) {
-	Graph<E> res(code.size() + 2);
-	std::vector<Integer> count(res.nodeCount());
-	for (Integer x : code) count[x]++;
-	Integer current = -1;
-	Integer skip = -1;
-	auto getNext = [&](){
-		Integer oldSkip = skip;
-		skip = -1;
-		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
-		for (current++; count[current] > 0; current++) {}
-		return current;
-	};
-	for (Integer x : code) {
-		Integer y = getNext();
-		res.addEdge(x, y);
-		count[x]--;
-		if (count[x] == 0) skip = x;
-	}
-	Integer x = getNext();
-	Integer y = getNext();
-	res.addEdge(x, y);
-	return res;
-}
-
-// generate a random tree with vertices [0, n)
-// if directed 0 is the root
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
-	if constexpr (!DIR) {
-		if (n <= 2) return clique<E>(n);
-		std::vector<Integer> code(n - 2);
-		for (Integer& x : code) x = Random::integer(n);
-		return pruefer<E>(code);
-	} else {
-		Graph<NoData> tmp = randomTree<NoData, false>(n);
-		DiGraph<E> res(n);
-		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
-			for (auto edge : tmp[cur]) {
-				if (edge.to == pref) continue;
-				res.addEdge(cur, edge.to);
-				self(self, edge.to, cur);
-			}
-		};
-		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
-		return res;
-	}
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with a given number of edges m
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	Integer lim = n * (n-1);
-	if constexpr (!DIR) lim /= 2;
-	auto edges = Random::distinct(m, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x / n;
-		Integer j = x % n;
-		if constexpr(DIR) {
-			if (i == j) i = n - 1;
-		} else {
-			if (j <= i) {
-				i = n - 2 - i;
-				j = n - 1 - j;
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
-}
-
-// generate a random graph with linear growing degrees
-template<typename E = NoData>
-Graph<E> randomGrowingGraph(Integer n, Real p) {
-	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
-	Graph<E> res(n);
-	for (Integer i = 0; i < n; i++) {
-		Integer deg = p * Random::real(0, i+1);
-		auto neighbours = Random::distinct(deg, 0, i);
-		for (Integer j : neighbours) res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph with a given degree sequence
-// (not uniform...)
-template<typename E = NoData>
-Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
-	Graph<E> res(std::ssize(degree));
-	// havel hakimi in O(m*log(n))
-	std::priority_queue<std::pair<Integer, Integer>> pq;
-	for (Integer i = 0; i < std::ssize(degree); i++) {
-		if (degree[i] > 0) {
-			pq.emplace(degree[i], i);
-		}
-	}
-	while (!pq.empty()) {
-		auto [d, c] = pq.top();
-		pq.pop();
-		if (std::ssize(pq) < d or d < 0) {
-			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
-		}
-		std::vector<std::pair<Integer, Integer>> todo;
-		for (Integer i = 0; i < d; i++) {
-			auto [dd, cc] = pq.top();
-			pq.pop();
-			res.addEdge(c, cc);
-			dd--;
-			if (dd > 0) todo.emplace_back(dd, cc);
-		}
-		for (const auto& e : todo) pq.push(e);
-	}
-	// randomly flip edges O(m*log(n))
-	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
-		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
-		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
-		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
-		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
-		res.eraseEdge(a.from, a.to);
-		res.eraseEdge(b.from, b.to);
-		res.addEdge(a.from, b.to);
-		res.addEdge(b.from, a.to);
-	}
-	return res;
-}
-
-// generates a worstcase instance for Ford Fulkerson with dfs.
-// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
-// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
-// Note that the specific order of edghes is required
-DiGraph<Integer> ffWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
-	DiGraph<Integer> res(2 * n);
-	res.addEdge(n-1, n, 1);
-	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
-		res.addEdge(i, i+1, c);
-		res.addEdge(i, j-1, c);
-		res.addEdge(i+1, j, c);
-		res.addEdge(j-1, j, c);
-	}
-	return res;
-}
-
-// generates a worstcase instance for various min cost max flow algorithms.
-// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
-// Figure 4: https://link.springer.com/article/10.1007/BF01580132
-DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
-	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
-	Integer inf = 5 * (1ll << n) / 4;
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
-	}
-	res.addEdge(1, n + 1, {inf, 0});
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < n; j++) {
-			if (i == j) continue;
-			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
-		}
-	}
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
-	}
-	return res;
-}
-
-#endif
+//============================================================================//
+// graph_gen.h                                                                //
+//============================================================================//
+// This header can be used to Generate graphs. We support:                    //
+// - directed, undirected and weighted graphs                                 //
+// - uniform tree sampling                                                    //
+// - erdös renyi random graphs                                                //
+// - random graphs with a given degree sequence                               //
+// - random graphs with a power low distribution                              //
+// - various operations to construct graphs                                   //
+// This header requires validate.h zo to generate random graphs in a          //
+// deterministic and reproducable fashion.                                    //
+//============================================================================//
+//version 1.0.11                                                              //
+//https://github.com/mzuenni/icpc-header                                      //
+//============================================================================//
+
+#ifndef GRAPH_GENERATOR_H
+#define GRAPH_GENERATOR_H
+
+#include <cassert>
+#include <cstddef>
+#include <deque>
+#include <iostream>
+#include <ostream>
+#include <optional>
+#include <ostream>
+#include <queue>
+#include <random>
+#include <set>
+#include <utility>
+#include <ranges>
+#include <vector>
+#include "validate.h"
+
+namespace GraphDetail {
+	struct NoData final {};
+	constexpr NoData NOTHING;
+
+	// EdgeWrapper may be returned by some function
+	template<typename E, typename = void>
+	struct EdgeWrapper final {
+		const Integer from, to;
+		E& data;
+		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
+
+		E& operator*() {
+			return data;
+		}
+		const E& operator*() const {
+			return data;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+	};
+	template<typename E>
+	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
+		const Integer from, to;
+		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
+		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
+
+		E& operator*() const {return NOTHING;}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+	};
+
+	// EdgeType is the internel representation of an edge that should never get exposed!
+	template<typename E>
+	struct EdgeType final {
+		// we use key(from, to) = from^to for efficiency
+		// the key function must have the following properties:
+		// key(a, b) == key(b, a)
+		// to1 != to2 <=> key(from, to1) != key(from, to2)
+		// from1 != from2 <=> key(from1, to) != key(from2, to)
+		Integer fromXorTo, to;
+		E data;
+		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
+		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
+	};
+
+	template<typename E>
+	struct EdgePointerCompair final {
+		using is_transparent = std::true_type;
+		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
+			return t->fromXorTo < u->fromXorTo;
+		}
+		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
+			return t->fromXorTo < u;
+		}
+		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
+			return t < u->fromXorTo;
+		}
+	};
+
+	template<typename E, bool DIR>
+	class GraphType final {
+		// do not change!
+		static constexpr Integer DEFAULT_MIN_ID = 0;
+
+		template<typename, bool> friend class GraphType;
+		using EdgeTypeValue = E;
+		using Edge = EdgeWrapper<E>;
+		using ConstEdge = EdgeWrapper<const E>;
+		using InternalEdge = EdgeType<E>;
+		using Graph = GraphType<E, DIR>;
+
+		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
+		std::deque<InternalEdge> edges;
+		Integer minId;
+
+		inline void assertNode(Integer id) const {
+			if (id < minId or id >= minId + nodeCount()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
+			}
+		}
+
+		auto addEdge(InternalEdge* e) {
+			Integer from = e->fromXorTo ^ e->to;
+			Integer to = e->to;
+			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
+			return adj[from - minId].emplace(e).first;
+		}
+
+		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
+			edges.emplace_back(from ^ to, to, data);
+		}
+
+		void buildAdj() {
+			for (auto& e : edges) addEdge(&e);
+		}
+	public:
+		// construct empty graph with vertices in [from, to)
+		explicit GraphType(Integer from, Integer to) :
+			adj(to - from),
+			minId(from) {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
+		}
+		// construct empty graph with vertices in [0, n)
+		explicit GraphType(Integer n = 0) :
+			GraphType(DEFAULT_MIN_ID, n) {}
+
+		// copy graphs without breaking pointers
+		GraphType(const Graph& o) :
+			adj(o.size()),
+			edges(o.edges),
+			minId(o.minId) {
+			buildAdj();
+		}
+		Graph& operator=(const Graph& o) {
+			if (&o != this) {
+				adj.clear();
+				adj.resize(o.size());
+				edges = o.edges;
+				minId = o.minId;
+				buildAdj();
+			}
+			return *this;
+		}
+		Graph copy() const {
+			return *this;
+		}
+
+		//basic graph parameters
+		std::size_t size() const {
+			return adj.size();
+		}
+
+		Integer nodeCount() const {
+			return static_cast<Integer>(adj.size());
+		}
+
+		Integer edgeCount() const {
+			return static_cast<Integer>(edges.size());
+		}
+
+		Integer degree(Integer id) const {
+			assertNode(id);
+			return static_cast<Integer>(adj[id - minId].size());
+		}
+
+		Integer getMinId() const {
+			return minId;
+		}
+
+		Graph& setMinId(Integer newminId) {
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				Integer from = e.fromXorTo ^ e.to;
+				Integer to = e.to;
+				from = from - minId + newminId;
+				to = to - minId + newminId;
+				e.fromXorTo = from ^ to;
+				e.to = to;
+			}
+			minId = newminId;
+			buildAdj();
+			return *this;
+		}
+
+		Integer getNextId() const {
+			return minId + nodeCount();
+		}
+
+		Graph& normalize() {
+			return setMinId(DEFAULT_MIN_ID);
+		}
+
+		Graph range(Integer from, Integer to) const {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
+			Graph res(from, to);
+			for (const auto& e : getEdges()) {
+				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
+					res.addEdge(e.from, e.to, *e);
+				}
+			}
+			return res;
+		}
+
+		// basic graph operations
+		std::optional<Edge> findEdge(Integer from, Integer to) & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return Edge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return ConstEdge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		// ids may change!
+		Edge getEdgeById(std::size_t id) & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		ConstEdge getEdgeById(std::size_t id) const & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		bool hasEdge(Integer from, Integer to) const {
+			assertNode(from);
+			assertNode(to);
+			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
+		}
+
+		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
+			assertNode(from);
+			assertNode(to);
+			judgeAssert(from != to, "Graph: invalid selfloop!");
+			auto it = adj[from - minId].find(from ^ to);
+			if (it == adj[from - minId].end()) {
+				emplaceEdge(from, to, data);
+				it = addEdge(&(edges.back()));
+			} else {
+				(*it)->data = data;
+			}
+			return Edge(from, to, (*it)->data);
+		}
+
+		bool eraseEdge(Integer from, Integer to) {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				InternalEdge* a = *it;
+				InternalEdge* b = &(edges.back());
+				adj[from - minId].erase(a);
+				if constexpr (!DIR) adj[to - minId].erase(a);
+				from = b->fromXorTo ^ b->to;
+				to = b->to;
+				adj[from - minId].erase(b);
+				if constexpr (!DIR) adj[to - minId].erase(b);
+				std::swap(*a, *b);
+				edges.pop_back();
+				if (a != b) addEdge(a);
+				return true;
+			} else {
+				return false;
+			}
+		}
+
+		bool eraseEdge(const Edge& edge) {
+			return eraseEdge(edge.from, edge.to);
+		}
+
+		std::ranges::view auto getEdges() const & {
+			return std::views::all(edges)
+				 | std::views::transform([](const InternalEdge& edge){
+				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto getEdges() & {
+			return std::views::all(edges)
+				 | std::views::transform([](InternalEdge& edge){
+				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) const & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return Edge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto getDegrees() const & {
+			return std::views::all(adj)
+				 | std::views::transform([](auto& n){
+				return n.size();
+			});
+		}
+
+		// more basic graph operations
+		Graph& combine(const Graph& o) {
+			if (&o != this) {
+				while (minId > o.minId) {
+					minId--;
+					adj.emplace_front();
+				}
+				while (minId + nodeCount() < o.minId + o.nodeCount()) {
+					adj.emplace_back();
+				}
+				for (const auto& e : o.edges) {
+					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
+				}
+			}
+			return *this;
+		}
+
+		Graph& append(const Graph& o) {
+			//assert(&o != this); // should work
+			Integer diff = nodeCount() + minId - o.minId;
+			adj.resize(nodeCount() + o.nodeCount());
+			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
+				Integer to = o.edges[i].to;
+				Integer from = o.edges[i].fromXorTo ^ to;
+				addEdge(from + diff, to + diff, o.edges[i].data);
+			}
+			return *this;
+		}
+
+		Graph& permutateEdges() {
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			if constexpr(!DIR) {
+				for (auto& e : edges) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate(const std::vector<Integer>& perm) {
+			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			for (auto& e : edges) {
+				if constexpr (!DIR) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+				e.fromXorTo ^= e.to;
+				e.fromXorTo = perm[e.fromXorTo - minId];
+				e.to = perm[e.to - minId];
+				e.fromXorTo ^= e.to;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate() {
+			std::vector<Integer> perm(size());
+			std::iota(perm.begin(), perm.end(), minId);
+			Random::shuffle(perm.begin(), perm.end());
+			return permutate(perm);
+		}
+
+		Graph subgraph(Integer m) const {
+			if (m >= edgeCount()) return *this;
+			Graph res(minId, minId + nodeCount());
+			auto todo = Random::distinct(m, 0, edgeCount());
+			for (auto id : todo) res.edges.emplace_back(edges[id]);
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true>& reverse() {
+			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				e.to ^= e.fromXorTo;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		GraphType<E, false> undirected() const {
+			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
+			GraphType<E, false> res(minId, minId + nodeCount());
+			for (const auto e : getEdges()) {
+				res.addEdge(e.from, e.to, *e);
+			}
+			return res;
+		}
+
+		template<typename PRED>
+		GraphType<E, true> directed(const PRED&& p) const {
+			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
+			GraphType<E, true> res(minId, minId + nodeCount());
+			for (const auto& e : getEdges()) {
+				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
+					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
+				} else {
+					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
+					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true> directed() const {
+			return directed([](Integer /**/, Integer /**/){
+				return true;
+			});
+		}
+
+		Graph complement() const {
+			Graph res(minId, minId + nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				for (Integer j = 0; j < i; j++) {
+					if (!hasEdge(i + minId, j + minId)) {
+						res.emplaceEdge(i + minId, j + minId);
+					}
+					if constexpr (DIR) {
+						if (!hasEdge(j + minId, i + minId)) {
+							res.emplaceEdge(j + minId, i + minId);
+						}
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		// advanced graph operations
+		Graph power(Integer k) const {
+			Graph res(minId, minId + nodeCount());
+			std::vector<bool> seen(nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
+				for (std::size_t j = 0; j < queue.size(); j++) {
+					auto [c, d] = queue[j];
+					if (d < k) {
+						for (const auto& e : (*this)[c + minId]) {
+							if (!seen[e.to - minId]) {
+								seen[e.to - minId] = true;
+								queue.emplace_back(e.to - minId, d + 1);
+							}
+						}
+					}
+				}
+				for (auto [c, d] : queue) {
+					seen[c] = false;
+					if (i != c) {
+						res.emplaceEdge(i + minId, c + minId);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph& transitiveClosure() const {
+			return power(nodeCount());
+		}
+
+		Graph product(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b - o.minId) * nodeCount() + (a - minId);
+			};
+			for (const auto& e1 : getEdges()) {
+				for (const auto& e2 : o.getEdges()) {
+					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
+					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph cartesian(const Graph& o) const {
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b-o.minId) * nodeCount() + (a-minId);
+			};
+			for (const auto& e : o.getEdges()) {
+				for (Integer i = 0; i < nodeCount(); i++) {
+					Integer from = newId(i + minId, e.from);
+					Integer to = newId(i + minId, e.to);
+					res.emplaceEdge(from, to);
+				}
+			}
+			for (const auto& e : getEdges()) {
+				for (Integer i = 0; i < o.nodeCount(); i++) {
+					Integer from = newId(e.from, i + o.minId);
+					Integer to = newId(e.to, i + o.minId);
+					res.emplaceEdge(from, to);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph strongProduct(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			return o.cartesian(*this).combine(o.product(*this));
+		}
+
+		Graph lineGraph() const {
+			Graph tmp(minId, minId + nodeCount());
+			Integer nextEdge = 0;
+			for (const auto& e : getEdges()) {
+				tmp.emplaceEdge(e.from, e.to, nextEdge);
+				nextEdge++;
+			}
+			tmp.buildAdj();
+			Graph res(nextEdge);
+			for (const auto& e1 : tmp.getEdges()) {
+				if constexpr (DIR) {
+					for (const auto& e2 : tmp[e1.to]) {
+						res.emplaceEdge(*e1, *e2);
+					}
+				} else {
+					for (const auto& e2 : tmp[e1.to]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+					for (const auto& e2 : tmp[e1.from]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+	};
+} // GraphDetail
+
+using NoData = GraphDetail::NoData;
+
+template<typename E = GraphDetail::NoData>
+using Edge = GraphDetail::EdgeWrapper<E>;
+
+template<typename E = GraphDetail::NoData>
+using Graph = GraphDetail::GraphType<E, false>;
+
+template<typename E = GraphDetail::NoData>
+using DiGraph = GraphDetail::GraphType<E, true>;
+
+// n independed vertices in range [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> independent(Integer n) {
+	return GraphDetail::GraphType<E, DIR>(n);
+}
+
+// n connected vertices in range [0, n)
+// if directed all edges go from i to j with i < j
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> clique(Integer n) {
+	// could be implemented as linegraph of a star.
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer j = 0; j < n; j++) {
+		for (Integer i = 0; i < j; i++) {
+			res.addEdge(i, j);
+		}
+	}
+	return res;
+}
+
+// complete bipartite graph with partition [0, n) and [n, n+m)
+// if directed all edges go from [0, n) to [n, n+m)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < m; j++) {
+			res.addEdge(i, n + j);
+		}
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with a given number of edges k
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	auto edges = Random::distinct(k, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x % n;
+		Integer j = x / n + n;
+		if constexpr(DIR) {
+			if (x >= n * m) {
+				j -= m;
+				std::swap(i, j);
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
+	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
+}
+
+// star with root = 0 and chilrden [1, leaves]
+// if directed all edges go the root to [1, leaves)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> star(Integer leaves) {
+	return bipartite<E, DIR>(1, leaves);
+}
+
+// path 0-1-2-...-edges with vertices [0, edges]
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> path(Integer edges) {
+	GraphDetail::GraphType<E, DIR> res(edges+1);
+	for (Integer i = 0; i < edges; i++) {
+		res.addEdge(i, i + 1);
+	}
+	return res;
+}
+
+// path 0-1-2-...-n-1-0 with vertices [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> cycle(Integer n) {
+	auto p = path<E>(n-1);
+	p.addEdge(n - 1, 0);
+	return p;
+}
+
+// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
+template<typename E = NoData>
+Graph<E> wheel(Integer outer) {
+	return star<E>(outer).combine(path<E>(outer).setMinId(1));
+}
+
+// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
+// p is the vertex where clique and path are connected
+template<typename E = NoData>
+Graph<E> lolly(Integer p, Integer c) {
+	return path<E>(p).combine(clique<E>(c).setMinId(p));
+}
+
+// broom graph with a path with p edges [0, p] and a star [p, p+l]
+// p is the vertex where star and path are connected
+template<typename E = NoData>
+Graph<E> broom(Integer p, Integer l) {
+	return path<E>(p).combine(star<E>(l).setMinId(p));
+}
+
+// n times m grid
+// 0-1-...-n-1
+// | |      |
+// n- ... -2*n-1
+// |        |
+// .        .
+//          |
+//        -n*m-1
+template<typename E = NoData>
+Graph<E> grid(Integer n, Integer m) {
+	return path<E>(n-1).cartesian(path<E>(m-1));
+}
+template<typename E = NoData>
+Graph<E> grid(Integer n) {
+	return grid<E>(n, n);
+}
+
+// n dimensional hyper cube with vertices [0, 2^dimension)
+// a-b <=> |a^b|=1
+template<typename E = NoData>
+Graph<E> hypercube(Integer dimension) {
+	if (dimension < 2) return clique<E>(dimension+1);
+	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
+}
+
+// complete tree with root at 0 and all subtrees are consecutive
+// vertices in [0, (children^{level+1}-1)/(children-1))
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
+	if (level <= 2) return star<E, DIR>(children);
+	GraphDetail::GraphType<E, DIR> res(1);
+	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
+	for (Integer i = 0; i < children; i++) {
+		Integer next = res.nodeCount();
+		res.append(sub);
+		res.addEdge(0, next);
+	}
+	return res;
+}
+
+
+// complete boolean lattice i->j <=> i|j==j
+// vertices in [0, 2^level)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
+	GraphDetail::GraphType<E, DIR> res(1 << level);
+	for (Integer i = 0; i < res.nodeCount(); i++) {
+		for (Integer j = 1; j < res.nodeCount(); j*=2) {
+			if ((i | j) == i) {
+				res.addEdge(i, i^j);
+			}
+		}
+	}
+	return res;
+}
+
+// prefix of the rado graph i->j <=> i<j and j[i] == true;
+// vertices in [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> rado(Integer n) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; (1 << j) < i; j++) {
+			if ((i | (1 << j)) == i) {
+				res.addEdge(i, j);
+			}
+		}
+	}
+	return res;
+}
+
+// generate a tree from a pruefer code
+// values should be in [0, sz(code)+2)
+template<typename E = NoData>
+Graph<E> pruefer(const std::vector<Integer>& code) {
+	Graph<E> res(code.size() + 2);
+	std::vector<Integer> count(res.nodeCount());
+	for (Integer x : code) count[x]++;
+	Integer current = -1;
+	Integer skip = -1;
+	auto getNext = [&](){
+		Integer oldSkip = skip;
+		skip = -1;
+		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
+		for (current++; count[current] > 0; current++) {}
+		return current;
+	};
+	for (Integer x : code) {
+		Integer y = getNext();
+		res.addEdge(x, y);
+		count[x]--;
+		if (count[x] == 0) skip = x;
+	}
+	Integer x = getNext();
+	Integer y = getNext();
+	res.addEdge(x, y);
+	return res;
+}
+
+// generate a random tree with vertices [0, n)
+// if directed 0 is the root
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
+	if constexpr (!DIR) {
+		if (n <= 2) return clique<E>(n);
+		std::vector<Integer> code(n - 2);
+		for (Integer& x : code) x = Random::integer(n);
+		return pruefer<E>(code);
+	} else {
+		Graph<NoData> tmp = randomTree<NoData, false>(n);
+		DiGraph<E> res(n);
+		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
+			for (auto edge : tmp[cur]) {
+				if (edge.to == pref) continue;
+				res.addEdge(cur, edge.to);
+				self(self, edge.to, cur);
+			}
+		};
+		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
+		return res;
+	}
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with a given number of edges m
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	auto edges = Random::distinct(m, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x / n;
+		Integer j = x % n;
+		if constexpr(DIR) {
+			if (i == j) i = n - 1;
+		} else {
+			if (j <= i) {
+				i = n - 2 - i;
+				j = n - 1 - j;
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
+	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
+}
+
+// generate a random graph with linear growing degrees
+template<typename E = NoData>
+Graph<E> randomGrowingGraph(Integer n, Real p) {
+	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
+	Graph<E> res(n);
+	for (Integer i = 0; i < n; i++) {
+		Integer deg = p * Random::real(0, i+1);
+		auto neighbours = Random::distinct(deg, 0, i);
+		for (Integer j : neighbours) res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph with a given degree sequence
+// (not uniform...)
+template<typename E = NoData>
+Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
+	Graph<E> res(std::ssize(degree));
+	// havel hakimi in O(m*log(n))
+	std::priority_queue<std::pair<Integer, Integer>> pq;
+	for (Integer i = 0; i < std::ssize(degree); i++) {
+		if (degree[i] > 0) {
+			pq.emplace(degree[i], i);
+		}
+	}
+	while (!pq.empty()) {
+		auto [d, c] = pq.top();
+		pq.pop();
+		if (std::ssize(pq) < d or d < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
+		std::vector<std::pair<Integer, Integer>> todo;
+		for (Integer i = 0; i < d; i++) {
+			auto [dd, cc] = pq.top();
+			pq.pop();
+			res.addEdge(c, cc);
+			dd--;
+			if (dd > 0) todo.emplace_back(dd, cc);
+		}
+		for (const auto& e : todo) pq.push(e);
+	}
+	// randomly flip edges O(m*log(n))
+	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
+		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
+		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
+		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
+		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
+		res.eraseEdge(a.from, a.to);
+		res.eraseEdge(b.from, b.to);
+		res.addEdge(a.from, b.to);
+		res.addEdge(b.from, a.to);
+	}
+	return res;
+}
+
+// generates a worstcase instance for Ford Fulkerson with dfs.
+// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
+// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
+// Note that the specific order of edghes is required
+DiGraph<Integer> ffWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
+	DiGraph<Integer> res(2 * n);
+	res.addEdge(n-1, n, 1);
+	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
+		res.addEdge(i, i+1, c);
+		res.addEdge(i, j-1, c);
+		res.addEdge(i+1, j, c);
+		res.addEdge(j-1, j, c);
+	}
+	return res;
+}
+
+// generates a worstcase instance for various min cost max flow algorithms.
+// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
+// Figure 4: https://link.springer.com/article/10.1007/BF01580132
+DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
+	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
+	Integer inf = 5 * (1ll << n) / 4;
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
+	}
+	res.addEdge(1, n + 1, {inf, 0});
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < n; j++) {
+			if (i == j) continue;
+			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
+		}
+	}
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
+	}
+	return res;
+}
+
+#endif
-- 
2.43.0


From 70df1150f03d11a247ac6ec57e4af21ce1c241aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 21/50] fix: Graph::transitiveClosure() returned a reference to
 a temporary

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index c3756c6..2de3f1a 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -522,7 +522,7 @@ namespace GraphDetail {
 			return res;
 		}
 
-		Graph& transitiveClosure() const {
+		Graph transitiveClosure() const {
 			return power(nodeCount());
 		}
 
-- 
2.43.0


From 636b70a212a50a976d8a9eb4d3c448aeddbc1fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 22/50] fix: Graph::power() inserted each undirected edge twice

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 2de3f1a..071e28f 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -513,7 +513,7 @@ namespace GraphDetail {
 				}
 				for (auto [c, d] : queue) {
 					seen[c] = false;
-					if (i != c) {
+					if (DIR ? i != c : i < c) {
 						res.emplaceEdge(i + minId, c + minId);
 					}
 				}
-- 
2.43.0


From ec7b70b09aa3d8e2df1fbec0b81ec110d5e8bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 23/50] fix: Graph::lineGraph() requires no special edge data

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 071e28f..e660f1b 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -571,7 +571,7 @@ namespace GraphDetail {
 		}
 
 		Graph lineGraph() const {
-			Graph tmp(minId, minId + nodeCount());
+			GraphType<Integer, DIR> tmp(minId, minId + nodeCount());
 			Integer nextEdge = 0;
 			for (const auto& e : getEdges()) {
 				tmp.emplaceEdge(e.from, e.to, nextEdge);
-- 
2.43.0


From b81bb344752ac12b30080ec3f25e00c6e6e3ad56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 24/50] fix: directed cycle did not compile

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index e660f1b..74a7389 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -705,7 +705,7 @@ GraphDetail::GraphType<E, DIR> path(Integer edges) {
 // path 0-1-2-...-n-1-0 with vertices [0, n)
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E>(n-1);
+	auto p = path<E, DIR>(n-1);
 	p.addEdge(n - 1, 0);
 	return p;
 }
-- 
2.43.0


From 1634f65ee0ffdb66f47acea470e906547d64b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 25/50] fix: wheel() had an additional vertex and did not close
 the outer cycle

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 74a7389..70f17b0 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -713,7 +713,7 @@ GraphDetail::GraphType<E, DIR> cycle(Integer n) {
 // wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
 template<typename E = NoData>
 Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(path<E>(outer).setMinId(1));
+	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
 }
 
 // lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-- 
2.43.0


From 2f26a39dfec2d7c881f1a5eb75fb859f9aa8bff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 26/50] fix: rado() missed edges and reversed the direction of
 all edges

---
 src/graph_gen.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 70f17b0..0599087 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -792,9 +792,9 @@ template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> rado(Integer n) {
 	GraphDetail::GraphType<E, DIR> res(n);
 	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) < i; j++) {
-			if ((i | (1 << j)) == i) {
-				res.addEdge(i, j);
+		for (Integer j = 0; (1ll << j) <= i; j++) {
+			if ((i | (1ll << j)) == i) {
+				res.addEdge(j, i);
 			}
 		}
 	}
-- 
2.43.0


From fb27544023a66279b24c6e58b8c83ff06cabdc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 27/50] fix: directed Erdos-Renyi graphs had only half of the
 expected edges

---
 src/graph_gen.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 0599087..6928b5c 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -682,7 +682,9 @@ GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k)
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	return randomBipartite<E, DIR>(n, m, Random::binomial(lim, p));
 }
 
 // star with root = 0 and chilrden [1, leaves]
@@ -881,7 +883,9 @@ GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	return randomGraph<E, DIR>(n, Random::binomial(lim, p));
 }
 
 // generate a random graph with linear growing degrees
-- 
2.43.0


From e46513bc5b0e6c2fa5dde9b985e538962faf2ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 28/50] fix: randomGraph(degree) refused sequences without
 edges and accepted negative degrees

---
 src/graph_gen.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 6928b5c..3754afe 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -909,6 +909,9 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 	// havel hakimi in O(m*log(n))
 	std::priority_queue<std::pair<Integer, Integer>> pq;
 	for (Integer i = 0; i < std::ssize(degree); i++) {
+		if (degree[i] < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
 		if (degree[i] > 0) {
 			pq.emplace(degree[i], i);
 		}
@@ -929,6 +932,7 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 		}
 		for (const auto& e : todo) pq.push(e);
 	}
+	if (res.edgeCount() == 0) return res;
 	// randomly flip edges O(m*log(n))
 	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
 		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
-- 
2.43.0


From 7f97c5109b942903532d6f5606ffe20e4b958c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 29/50] fix: pruefer() must refuse invalid codes

---
 src/graph_gen.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 3754afe..24632b4 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -809,7 +809,10 @@ template<typename E = NoData>
 Graph<E> pruefer(const std::vector<Integer>& code) {
 	Graph<E> res(code.size() + 2);
 	std::vector<Integer> count(res.nodeCount());
-	for (Integer x : code) count[x]++;
+	for (Integer x : code) {
+		judgeAssert<std::invalid_argument>(0 <= x and x < res.nodeCount(), "pruefer(): Invalid code!");
+		count[x]++;
+	}
 	Integer current = -1;
 	Integer skip = -1;
 	auto getNext = [&](){
-- 
2.43.0


From fac27c49d47ceafa4ffff388ae348a3bcbd0213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 30/50] fix: Graph::permutate() must refuse permutations of the
 wrong size

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 24632b4..a566379 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -399,7 +399,7 @@ namespace GraphDetail {
 		}
 
 		Graph& permutate(const std::vector<Integer>& perm) {
-			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
+			judgeAssert<std::invalid_argument>(perm.size() == size() and isPerm(perm, minId), "Graph: not a permutation");
 			for (auto& n : adj) n.clear();
 			Random::shuffle(edges.begin(), edges.end());
 			for (auto& e : edges) {
-- 
2.43.0


From 8118401cc3f561a4ae34488d8cea726687fa8465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:52 +0000
Subject: [PATCH 31/50] fix: DiGraph::isDAG() refused every graph with edges

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 23ce11e..0186219 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -191,7 +191,7 @@ public:
 		std::vector<std::size_t> deg(adj.size());
 		std::vector<Integer> order, todo;
 		for (std::size_t i = 0; i < adj.size(); i++) {
-			deg[i] = adj[i].size();
+			deg[i] = rev[i].size();
 			if (deg[i] == 0) todo.push_back(i);
 		}
 		while (!todo.empty()) {
-- 
2.43.0


From 6b9186cb5efeefbdd6bdaf16094a7047fa8bdfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:52 +0000
Subject: [PATCH 32/50] fix: DiGraph::isTree() accepted graphs with a cycle

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 0186219..c197024 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -209,7 +209,7 @@ public:
 	}
 
 	std::optional<Integer> isTree() const {
-		if (rootCount == 1 and edgeCount() + 1 == nodeCount()) return root + offset;
+		if (rootCount == 1 and edgeCount() + 1 == nodeCount() and root < nodeCount()) return root + offset;
 		return std::nullopt;
 	}
 
-- 
2.43.0


From 18d8e6fcd19259a9cdfc600b6446fd7f71100e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 33/50] fix: PNG::fillRectangle compares the row with the
 border instead of assigning it

---
 src/visualizer_png.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index edc8d5b..875d86a 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -342,7 +342,7 @@ public:
 	void fillRectangle(const Point& a, const Point& b, const Color border, const Color& fill) {
 		for (Integer y = std::min(a.y, b.y); y <= std::max(a.y, b.y); y++) {
 			for (Integer x = std::min(a.x, b.x); x <= std::max(a.x, b.x); x++) {
-				if (y = a.y or y == b.y or x == a.x or x == b.x) {
+				if (y == a.y or y == b.y or x == a.x or x == b.x) {
 					colors[y][x] = details::combine<M>(colors[y][x], border);
 				} else {
 					colors[y][x] = details::combine<M>(colors[y][x], fill);
-- 
2.43.0


From 7295a13fe2b1792f94916d0099bc53f3c78b7d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 34/50] fix: PNG colours scaled by a huge factor saturate

---
 src/visualizer_png.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index 875d86a..154a12f 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -92,12 +92,12 @@ constexpr std::uint8_t clamp_color(int c) {
 
 template<>
 constexpr std::uint8_t clamp_color(long double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0l, 255.0l)));
 }
 
 template<>
 constexpr std::uint8_t clamp_color(double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0, 255.0)));
 }
 
 constexpr Color operator*(Real f, const Color& c) {
-- 
2.43.0


From 69d3143503e69145b8b9a909aea47ac0836b77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 35/50] fix: SVG colours scaled by a huge factor saturate

---
 src/visualizer_svg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index ecd0768..fe5f5bc 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -101,12 +101,12 @@ constexpr std::uint8_t clamp_color(int c) {
 
 template<>
 constexpr std::uint8_t clamp_color(long double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0l, 255.0l)));
 }
 
 template<>
 constexpr std::uint8_t clamp_color(double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0, 255.0)));
 }
 
 constexpr Color operator*(Real f, const Color& c) {
-- 
2.43.0


From dd7cb2337611bbbb739f78b3f37907278d415809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 36/50] fix: SVG files declare their encoding by its registered
 name UTF-8

---
 src/visualizer_svg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index fe5f5bc..4156264 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -315,7 +315,7 @@ public:
 	void write() const {
 		if (!fileName or out.str().empty()) return;
 		std::ofstream os(*fileName);
-		os << "<?xml " << attribute("version", "1.0") << attribute("encoding", "UTF8")<< "?>" << std::endl;
+		os << "<?xml " << attribute("version", "1.0") << attribute("encoding", "UTF-8")<< "?>" << std::endl;
 		os << "<svg " << attribute("xmlns", "http://www.w3.org/2000/svg")
 					  << attribute("version", "1.0")
 					  << attribute("baseProfile", "full")
-- 
2.43.0


From c1054c6c43c1b92547d354fc9bd978788cbd8639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 37/50] fix: SVG comments which contain "--" made the file
 malformed

---
 src/visualizer_svg.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index 4156264..99ba0eb 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -532,7 +532,13 @@ struct Comment final {
 	explicit Comment(const std::string& comment_) : comment(comment_) {}
 
 	friend std::ostream& operator<<(std::ostream& os, const Comment& comment) {
-		return os << "<!-- " << comment.comment << " -->";
+		os << "<!-- ";
+		for (std::size_t i = 0; i < comment.comment.size(); i++) {
+			// "--" is not allowed inside of a comment
+			if (i > 0 and comment.comment[i] == '-' and comment.comment[i-1] == '-') os << ' ';
+			os << comment.comment[i];
+		}
+		return os << " -->";
 	}
 };
 
-- 
2.43.0


From 99401663980c4b9b67a1e783dd180717fd223d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 38/50] fix: SVG bounding box also includes shapes written
 behind text, a comment or a manipulator

---
 src/visualizer_svg.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index 99ba0eb..ffb6842 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -350,6 +350,11 @@ public:
 
 };
 
+// updates the bounding box even if the static type of the SVG was lost, i.e. svg << "\n" << shape;
+inline void includeInBB(std::ostream& os, const Point& p) {
+	if (SVG* svg = dynamic_cast<SVG*>(&os)) svg->includeInBB(p);
+}
+
 struct Shape {
 	std::optional<Stroke> stroke;
 	std::optional<Fill> fill;
@@ -389,13 +394,13 @@ struct Rectangle final : public Shape {
 		os << attribute("height", rectangle.dimension.height);
 		os << static_cast<const Shape&>(rectangle);
 		os << "/>";
+		includeInBB(os, rectangle.origin);
+		includeInBB(os, rectangle.origin + rectangle.dimension);
 		return os;
 	}
 
 	friend SVG& operator<<(SVG& os, const Rectangle& rectangle) {
 		static_cast<std::ostream&>(os) << rectangle;
-		os.includeInBB(rectangle.origin);
-		os.includeInBB(rectangle.origin + rectangle.dimension);
 		return os;
 	}
 };
@@ -415,13 +420,13 @@ struct Circle final : public Shape {
 		os << attribute("cy", flipY(circle.origin.y));
 		os << static_cast<const Shape&>(circle);
 		os << "/>";
+		includeInBB(os, circle.origin + Dimension(circle.r, circle.r));
+		includeInBB(os, circle.origin + Dimension(-circle.r, -circle.r));
 		return os;
 	}
 
 	friend SVG& operator<<(SVG& os, const Circle& circle) {
 		static_cast<std::ostream&>(os) << circle;
-		os.includeInBB(circle.origin + Dimension(circle.r, circle.r));
-		os.includeInBB(circle.origin + Dimension(-circle.r, -circle.r));
 		return os;
 	}
 };
@@ -442,13 +447,13 @@ struct Ellipse final : public Shape {
 		os << attribute("cy", flipY(ellipse.origin.y));
 		os << static_cast<const Shape&>(ellipse);
 		os << "/>";
+		includeInBB(os, ellipse.origin + Dimension(ellipse.rx, ellipse.ry));
+		includeInBB(os, ellipse.origin + Dimension(-ellipse.rx, -ellipse.ry));
 		return os;
 	}
 
 	friend SVG& operator<<(SVG& os, const Ellipse& ellipse) {
 		static_cast<std::ostream&>(os) << ellipse;
-		os.includeInBB(ellipse.origin + Dimension(ellipse.rx, ellipse.ry));
-		os.includeInBB(ellipse.origin + Dimension(-ellipse.rx, -ellipse.ry));
 		return os;
 	}
 };
@@ -467,12 +472,12 @@ struct Polygon final : public Shape {
 		os << "\" ";
 		os << static_cast<const Shape&>(polygon);
 		os << "/>";
+		for (const Point& p : polygon.points) includeInBB(os, p);
 		return os;
 	}
 
 	friend SVG& operator<<(SVG& os, const Polygon& polygon) {
 		static_cast<std::ostream&>(os) << polygon;
-		for (const Point& p : polygon.points) os.includeInBB(p);
 		return os;
 	}
 };
@@ -492,13 +497,13 @@ struct Line final : public Shape {
 		os << attribute("y2", flipY(line.p2.y));
 		os << static_cast<const Shape&>(line);
 		os << "/>";
+		includeInBB(os, line.p1);
+		includeInBB(os, line.p2);
 		return os;
 	}
 
 	friend SVG& operator<<(SVG& os, const Line& line) {
 		static_cast<std::ostream&>(os) << line;
-		os.includeInBB(line.p1);
-		os.includeInBB(line.p2);
 		return os;
 	}
 };
@@ -517,12 +522,12 @@ struct Polyline final : public Shape {
 		os << "\" ";
 		os << static_cast<const Shape&>(polyline);
 		os << "/>";
+		for (const Point& p : polyline.points) includeInBB(os, p);
 		return os;
 	}
 
 	friend SVG& operator<<(SVG& os, const Polyline& polyline) {
 		static_cast<std::ostream&>(os) << polyline;
-		for (const Point& p : polyline.points) os.includeInBB(p);
 		return os;
 	}
 };
-- 
2.43.0


From 5959f9ab1dddc5dd8dd0b0d585d0d0b0accbd477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 39/50] fix: allAdjacent() of a container answered
 noneAdjacent()

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index b7de8da..123d198 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -630,7 +630,7 @@ constexpr boolean<Integer> allAdjacent(RandomIt first, RandomIt last, BinaryPred
 }
 template<typename C, typename BinaryPredicate>
 constexpr boolean<Integer> allAdjacent(const C& c, BinaryPredicate p) {
-	return noneAdjacent(std::begin(c), std::end(c), p);
+	return allAdjacent(std::begin(c), std::end(c), p);
 }
 
 template<typename RandomIt>
-- 
2.43.0


From 04623969bca0f78d4cd3cdd86e877da6a6ffc1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:01 +0000
Subject: [PATCH 40/50] fix: restore the line endings of graph_gen.h

d481422 converted the whole file from CRLF to LF by accident.
---
 src/graph_gen.h | 1986 +++++++++++++++++++++++------------------------
 1 file changed, 993 insertions(+), 993 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index a566379..90ac983 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -1,993 +1,993 @@
-//============================================================================//
-// graph_gen.h                                                                //
-//============================================================================//
-// This header can be used to Generate graphs. We support:                    //
-// - directed, undirected and weighted graphs                                 //
-// - uniform tree sampling                                                    //
-// - erdös renyi random graphs                                                //
-// - random graphs with a given degree sequence                               //
-// - random graphs with a power low distribution                              //
-// - various operations to construct graphs                                   //
-// This header requires validate.h zo to generate random graphs in a          //
-// deterministic and reproducable fashion.                                    //
-//============================================================================//
-//version 1.0.11                                                              //
-//https://github.com/mzuenni/icpc-header                                      //
-//============================================================================//
-
-#ifndef GRAPH_GENERATOR_H
-#define GRAPH_GENERATOR_H
-
-#include <cassert>
-#include <cstddef>
-#include <deque>
-#include <iostream>
-#include <ostream>
-#include <optional>
-#include <ostream>
-#include <queue>
-#include <random>
-#include <set>
-#include <utility>
-#include <ranges>
-#include <vector>
-#include "validate.h"
-
-namespace GraphDetail {
-	struct NoData final {};
-	constexpr NoData NOTHING;
-
-	// EdgeWrapper may be returned by some function
-	template<typename E, typename = void>
-	struct EdgeWrapper final {
-		const Integer from, to;
-		E& data;
-		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
-
-		E& operator*() {
-			return data;
-		}
-		const E& operator*() const {
-			return data;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			os << " " << *e;
-			return os;
-		}
-	};
-	template<typename E>
-	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
-		const Integer from, to;
-		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
-		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
-
-		E& operator*() const {return NOTHING;}
-
-		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
-			os << e.from << " " << e.to;
-			return os;
-		}
-	};
-
-	// EdgeType is the internel representation of an edge that should never get exposed!
-	template<typename E>
-	struct EdgeType final {
-		// we use key(from, to) = from^to for efficiency
-		// the key function must have the following properties:
-		// key(a, b) == key(b, a)
-		// to1 != to2 <=> key(from, to1) != key(from, to2)
-		// from1 != from2 <=> key(from1, to) != key(from2, to)
-		Integer fromXorTo, to;
-		E data;
-		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
-		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
-	};
-
-	template<typename E>
-	struct EdgePointerCompair final {
-		using is_transparent = std::true_type;
-		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
-			return t->fromXorTo < u->fromXorTo;
-		}
-		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
-			return t->fromXorTo < u;
-		}
-		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
-			return t < u->fromXorTo;
-		}
-	};
-
-	template<typename E, bool DIR>
-	class GraphType final {
-		// do not change!
-		static constexpr Integer DEFAULT_MIN_ID = 0;
-
-		template<typename, bool> friend class GraphType;
-		using EdgeTypeValue = E;
-		using Edge = EdgeWrapper<E>;
-		using ConstEdge = EdgeWrapper<const E>;
-		using InternalEdge = EdgeType<E>;
-		using Graph = GraphType<E, DIR>;
-
-		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
-		std::deque<InternalEdge> edges;
-		Integer minId;
-
-		inline void assertNode(Integer id) const {
-			if (id < minId or id >= minId + nodeCount()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
-			}
-		}
-
-		auto addEdge(InternalEdge* e) {
-			Integer from = e->fromXorTo ^ e->to;
-			Integer to = e->to;
-			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
-			return adj[from - minId].emplace(e).first;
-		}
-
-		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
-			edges.emplace_back(from ^ to, to, data);
-		}
-
-		void buildAdj() {
-			for (auto& e : edges) addEdge(&e);
-		}
-	public:
-		// construct empty graph with vertices in [from, to)
-		explicit GraphType(Integer from, Integer to) :
-			adj(to - from),
-			minId(from) {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
-		}
-		// construct empty graph with vertices in [0, n)
-		explicit GraphType(Integer n = 0) :
-			GraphType(DEFAULT_MIN_ID, n) {}
-
-		// copy graphs without breaking pointers
-		GraphType(const Graph& o) :
-			adj(o.size()),
-			edges(o.edges),
-			minId(o.minId) {
-			buildAdj();
-		}
-		Graph& operator=(const Graph& o) {
-			if (&o != this) {
-				adj.clear();
-				adj.resize(o.size());
-				edges = o.edges;
-				minId = o.minId;
-				buildAdj();
-			}
-			return *this;
-		}
-		Graph copy() const {
-			return *this;
-		}
-
-		//basic graph parameters
-		std::size_t size() const {
-			return adj.size();
-		}
-
-		Integer nodeCount() const {
-			return static_cast<Integer>(adj.size());
-		}
-
-		Integer edgeCount() const {
-			return static_cast<Integer>(edges.size());
-		}
-
-		Integer degree(Integer id) const {
-			assertNode(id);
-			return static_cast<Integer>(adj[id - minId].size());
-		}
-
-		Integer getMinId() const {
-			return minId;
-		}
-
-		Graph& setMinId(Integer newminId) {
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				Integer from = e.fromXorTo ^ e.to;
-				Integer to = e.to;
-				from = from - minId + newminId;
-				to = to - minId + newminId;
-				e.fromXorTo = from ^ to;
-				e.to = to;
-			}
-			minId = newminId;
-			buildAdj();
-			return *this;
-		}
-
-		Integer getNextId() const {
-			return minId + nodeCount();
-		}
-
-		Graph& normalize() {
-			return setMinId(DEFAULT_MIN_ID);
-		}
-
-		Graph range(Integer from, Integer to) const {
-			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
-			Graph res(from, to);
-			for (const auto& e : getEdges()) {
-				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, *e);
-				}
-			}
-			return res;
-		}
-
-		// basic graph operations
-		std::optional<Edge> findEdge(Integer from, Integer to) & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return Edge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				return ConstEdge(from, to, (*it)->data);
-			} else {
-				return {};
-			}
-		}
-
-		// ids may change!
-		Edge getEdgeById(std::size_t id) & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		ConstEdge getEdgeById(std::size_t id) const & {
-			if (id >= edges.size()) {
-				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
-			}
-			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
-		}
-
-		bool hasEdge(Integer from, Integer to) const {
-			assertNode(from);
-			assertNode(to);
-			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
-		}
-
-		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
-			assertNode(from);
-			assertNode(to);
-			judgeAssert(from != to, "Graph: invalid selfloop!");
-			auto it = adj[from - minId].find(from ^ to);
-			if (it == adj[from - minId].end()) {
-				emplaceEdge(from, to, data);
-				it = addEdge(&(edges.back()));
-			} else {
-				(*it)->data = data;
-			}
-			return Edge(from, to, (*it)->data);
-		}
-
-		bool eraseEdge(Integer from, Integer to) {
-			assertNode(from);
-			assertNode(to);
-			auto it = adj[from - minId].find(from ^ to);
-			if (it != adj[from - minId].end()) {
-				InternalEdge* a = *it;
-				InternalEdge* b = &(edges.back());
-				adj[from - minId].erase(a);
-				if constexpr (!DIR) adj[to - minId].erase(a);
-				from = b->fromXorTo ^ b->to;
-				to = b->to;
-				adj[from - minId].erase(b);
-				if constexpr (!DIR) adj[to - minId].erase(b);
-				std::swap(*a, *b);
-				edges.pop_back();
-				if (a != b) addEdge(a);
-				return true;
-			} else {
-				return false;
-			}
-		}
-
-		bool eraseEdge(const Edge& edge) {
-			return eraseEdge(edge.from, edge.to);
-		}
-
-		std::ranges::view auto getEdges() const & {
-			return std::views::all(edges)
-				 | std::views::transform([](const InternalEdge& edge){
-				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto getEdges() & {
-			return std::views::all(edges)
-				 | std::views::transform([](InternalEdge& edge){
-				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) const & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto operator[](Integer id) & {
-			assertNode(id);
-			return std::views::all(adj[id-minId])
-				 | std::views::transform([id](InternalEdge* edge){
-				return Edge(id, edge->fromXorTo ^ id, edge->data);
-			});
-		}
-
-		std::ranges::view auto getDegrees() const & {
-			return std::views::all(adj)
-				 | std::views::transform([](auto& n){
-				return n.size();
-			});
-		}
-
-		// more basic graph operations
-		Graph& combine(const Graph& o) {
-			if (&o != this) {
-				while (minId > o.minId) {
-					minId--;
-					adj.emplace_front();
-				}
-				while (minId + nodeCount() < o.minId + o.nodeCount()) {
-					adj.emplace_back();
-				}
-				for (const auto& e : o.edges) {
-					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
-				}
-			}
-			return *this;
-		}
-
-		Graph& append(const Graph& o) {
-			//assert(&o != this); // should work
-			Integer diff = nodeCount() + minId - o.minId;
-			adj.resize(nodeCount() + o.nodeCount());
-			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
-				Integer to = o.edges[i].to;
-				Integer from = o.edges[i].fromXorTo ^ to;
-				addEdge(from + diff, to + diff, o.edges[i].data);
-			}
-			return *this;
-		}
-
-		Graph& permutateEdges() {
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			if constexpr(!DIR) {
-				for (auto& e : edges) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate(const std::vector<Integer>& perm) {
-			judgeAssert<std::invalid_argument>(perm.size() == size() and isPerm(perm, minId), "Graph: not a permutation");
-			for (auto& n : adj) n.clear();
-			Random::shuffle(edges.begin(), edges.end());
-			for (auto& e : edges) {
-				if constexpr (!DIR) {
-					if (Random::bit()) {
-						e.to ^= e.fromXorTo;
-					}
-				}
-				e.fromXorTo ^= e.to;
-				e.fromXorTo = perm[e.fromXorTo - minId];
-				e.to = perm[e.to - minId];
-				e.fromXorTo ^= e.to;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		Graph& permutate() {
-			std::vector<Integer> perm(size());
-			std::iota(perm.begin(), perm.end(), minId);
-			Random::shuffle(perm.begin(), perm.end());
-			return permutate(perm);
-		}
-
-		Graph subgraph(Integer m) const {
-			if (m >= edgeCount()) return *this;
-			Graph res(minId, minId + nodeCount());
-			auto todo = Random::distinct(m, 0, edgeCount());
-			for (auto id : todo) res.edges.emplace_back(edges[id]);
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true>& reverse() {
-			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
-			for (auto& n : adj) n.clear();
-			for (auto& e : edges) {
-				e.to ^= e.fromXorTo;
-			}
-			buildAdj();
-			return *this;
-		}
-
-		GraphType<E, false> undirected() const {
-			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
-			GraphType<E, false> res(minId, minId + nodeCount());
-			for (const auto e : getEdges()) {
-				res.addEdge(e.from, e.to, *e);
-			}
-			return res;
-		}
-
-		template<typename PRED>
-		GraphType<E, true> directed(const PRED&& p) const {
-			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
-			GraphType<E, true> res(minId, minId + nodeCount());
-			for (const auto& e : getEdges()) {
-				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
-					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
-				} else {
-					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
-					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
-					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		GraphType<E, true> directed() const {
-			return directed([](Integer /**/, Integer /**/){
-				return true;
-			});
-		}
-
-		Graph complement() const {
-			Graph res(minId, minId + nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				for (Integer j = 0; j < i; j++) {
-					if (!hasEdge(i + minId, j + minId)) {
-						res.emplaceEdge(i + minId, j + minId);
-					}
-					if constexpr (DIR) {
-						if (!hasEdge(j + minId, i + minId)) {
-							res.emplaceEdge(j + minId, i + minId);
-						}
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		// advanced graph operations
-		Graph power(Integer k) const {
-			Graph res(minId, minId + nodeCount());
-			std::vector<bool> seen(nodeCount());
-			for (Integer i = 0; i < nodeCount(); i++) {
-				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
-				for (std::size_t j = 0; j < queue.size(); j++) {
-					auto [c, d] = queue[j];
-					if (d < k) {
-						for (const auto& e : (*this)[c + minId]) {
-							if (!seen[e.to - minId]) {
-								seen[e.to - minId] = true;
-								queue.emplace_back(e.to - minId, d + 1);
-							}
-						}
-					}
-				}
-				for (auto [c, d] : queue) {
-					seen[c] = false;
-					if (DIR ? i != c : i < c) {
-						res.emplaceEdge(i + minId, c + minId);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph transitiveClosure() const {
-			return power(nodeCount());
-		}
-
-		Graph product(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b - o.minId) * nodeCount() + (a - minId);
-			};
-			for (const auto& e1 : getEdges()) {
-				for (const auto& e2 : o.getEdges()) {
-					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
-					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph cartesian(const Graph& o) const {
-			Graph res(nodeCount() * o.nodeCount());
-			auto newId = [&](Integer a, Integer b){
-				return (b-o.minId) * nodeCount() + (a-minId);
-			};
-			for (const auto& e : o.getEdges()) {
-				for (Integer i = 0; i < nodeCount(); i++) {
-					Integer from = newId(i + minId, e.from);
-					Integer to = newId(i + minId, e.to);
-					res.emplaceEdge(from, to);
-				}
-			}
-			for (const auto& e : getEdges()) {
-				for (Integer i = 0; i < o.nodeCount(); i++) {
-					Integer from = newId(e.from, i + o.minId);
-					Integer to = newId(e.to, i + o.minId);
-					res.emplaceEdge(from, to);
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		Graph strongProduct(const Graph& o) const {
-			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
-			return o.cartesian(*this).combine(o.product(*this));
-		}
-
-		Graph lineGraph() const {
-			GraphType<Integer, DIR> tmp(minId, minId + nodeCount());
-			Integer nextEdge = 0;
-			for (const auto& e : getEdges()) {
-				tmp.emplaceEdge(e.from, e.to, nextEdge);
-				nextEdge++;
-			}
-			tmp.buildAdj();
-			Graph res(nextEdge);
-			for (const auto& e1 : tmp.getEdges()) {
-				if constexpr (DIR) {
-					for (const auto& e2 : tmp[e1.to]) {
-						res.emplaceEdge(*e1, *e2);
-					}
-				} else {
-					for (const auto& e2 : tmp[e1.to]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-					for (const auto& e2 : tmp[e1.from]) {
-						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
-					}
-				}
-			}
-			res.buildAdj();
-			return res;
-		}
-
-		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
-			os << g.nodeCount() << " " << g.edgeCount();
-			for (const auto& e : g.getEdges()) os << '\n' << e;
-			return os;
-		}
-
-	};
-} // GraphDetail
-
-using NoData = GraphDetail::NoData;
-
-template<typename E = GraphDetail::NoData>
-using Edge = GraphDetail::EdgeWrapper<E>;
-
-template<typename E = GraphDetail::NoData>
-using Graph = GraphDetail::GraphType<E, false>;
-
-template<typename E = GraphDetail::NoData>
-using DiGraph = GraphDetail::GraphType<E, true>;
-
-// n independed vertices in range [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> independent(Integer n) {
-	return GraphDetail::GraphType<E, DIR>(n);
-}
-
-// n connected vertices in range [0, n)
-// if directed all edges go from i to j with i < j
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> clique(Integer n) {
-	// could be implemented as linegraph of a star.
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer j = 0; j < n; j++) {
-		for (Integer i = 0; i < j; i++) {
-			res.addEdge(i, j);
-		}
-	}
-	return res;
-}
-
-// complete bipartite graph with partition [0, n) and [n, n+m)
-// if directed all edges go from [0, n) to [n, n+m)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < m; j++) {
-			res.addEdge(i, n + j);
-		}
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with a given number of edges k
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
-	GraphDetail::GraphType<E, DIR> res(n+m);
-	Integer lim = n * m;
-	if constexpr (DIR) lim *= 2;
-	auto edges = Random::distinct(k, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x % n;
-		Integer j = x / n + n;
-		if constexpr(DIR) {
-			if (x >= n * m) {
-				j -= m;
-				std::swap(i, j);
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	Integer lim = n * m;
-	if constexpr (DIR) lim *= 2;
-	return randomBipartite<E, DIR>(n, m, Random::binomial(lim, p));
-}
-
-// star with root = 0 and chilrden [1, leaves]
-// if directed all edges go the root to [1, leaves)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> star(Integer leaves) {
-	return bipartite<E, DIR>(1, leaves);
-}
-
-// path 0-1-2-...-edges with vertices [0, edges]
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> path(Integer edges) {
-	GraphDetail::GraphType<E, DIR> res(edges+1);
-	for (Integer i = 0; i < edges; i++) {
-		res.addEdge(i, i + 1);
-	}
-	return res;
-}
-
-// path 0-1-2-...-n-1-0 with vertices [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E, DIR>(n-1);
-	p.addEdge(n - 1, 0);
-	return p;
-}
-
-// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
-template<typename E = NoData>
-Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
-}
-
-// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-// p is the vertex where clique and path are connected
-template<typename E = NoData>
-Graph<E> lolly(Integer p, Integer c) {
-	return path<E>(p).combine(clique<E>(c).setMinId(p));
-}
-
-// broom graph with a path with p edges [0, p] and a star [p, p+l]
-// p is the vertex where star and path are connected
-template<typename E = NoData>
-Graph<E> broom(Integer p, Integer l) {
-	return path<E>(p).combine(star<E>(l).setMinId(p));
-}
-
-// n times m grid
-// 0-1-...-n-1
-// | |      |
-// n- ... -2*n-1
-// |        |
-// .        .
-//          |
-//        -n*m-1
-template<typename E = NoData>
-Graph<E> grid(Integer n, Integer m) {
-	return path<E>(n-1).cartesian(path<E>(m-1));
-}
-template<typename E = NoData>
-Graph<E> grid(Integer n) {
-	return grid<E>(n, n);
-}
-
-// n dimensional hyper cube with vertices [0, 2^dimension)
-// a-b <=> |a^b|=1
-template<typename E = NoData>
-Graph<E> hypercube(Integer dimension) {
-	if (dimension < 2) return clique<E>(dimension+1);
-	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
-}
-
-// complete tree with root at 0 and all subtrees are consecutive
-// vertices in [0, (children^{level+1}-1)/(children-1))
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
-	if (level <= 2) return star<E, DIR>(children);
-	GraphDetail::GraphType<E, DIR> res(1);
-	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
-	for (Integer i = 0; i < children; i++) {
-		Integer next = res.nodeCount();
-		res.append(sub);
-		res.addEdge(0, next);
-	}
-	return res;
-}
-
-
-// complete boolean lattice i->j <=> i|j==j
-// vertices in [0, 2^level)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
-	GraphDetail::GraphType<E, DIR> res(1 << level);
-	for (Integer i = 0; i < res.nodeCount(); i++) {
-		for (Integer j = 1; j < res.nodeCount(); j*=2) {
-			if ((i | j) == i) {
-				res.addEdge(i, i^j);
-			}
-		}
-	}
-	return res;
-}
-
-// prefix of the rado graph i->j <=> i<j and j[i] == true;
-// vertices in [0, n)
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> rado(Integer n) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1ll << j) <= i; j++) {
-			if ((i | (1ll << j)) == i) {
-				res.addEdge(j, i);
-			}
-		}
-	}
-	return res;
-}
-
-// generate a tree from a pruefer code
-// values should be in [0, sz(code)+2)
-template<typename E = NoData>
-Graph<E> pruefer(const std::vector<Integer>& code) {
-	Graph<E> res(code.size() + 2);
-	std::vector<Integer> count(res.nodeCount());
-	for (Integer x : code) {
-		judgeAssert<std::invalid_argument>(0 <= x and x < res.nodeCount(), "pruefer(): Invalid code!");
-		count[x]++;
-	}
-	Integer current = -1;
-	Integer skip = -1;
-	auto getNext = [&](){
-		Integer oldSkip = skip;
-		skip = -1;
-		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
-		for (current++; count[current] > 0; current++) {}
-		return current;
-	};
-	for (Integer x : code) {
-		Integer y = getNext();
-		res.addEdge(x, y);
-		count[x]--;
-		if (count[x] == 0) skip = x;
-	}
-	Integer x = getNext();
-	Integer y = getNext();
-	res.addEdge(x, y);
-	return res;
-}
-
-// generate a random tree with vertices [0, n)
-// if directed 0 is the root
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
-	if constexpr (!DIR) {
-		if (n <= 2) return clique<E>(n);
-		std::vector<Integer> code(n - 2);
-		for (Integer& x : code) x = Random::integer(n);
-		return pruefer<E>(code);
-	} else {
-		Graph<NoData> tmp = randomTree<NoData, false>(n);
-		DiGraph<E> res(n);
-		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
-			for (auto edge : tmp[cur]) {
-				if (edge.to == pref) continue;
-				res.addEdge(cur, edge.to);
-				self(self, edge.to, cur);
-			}
-		};
-		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
-		return res;
-	}
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with a given number of edges m
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
-	GraphDetail::GraphType<E, DIR> res(n);
-	Integer lim = n * (n-1);
-	if constexpr (!DIR) lim /= 2;
-	auto edges = Random::distinct(m, 0, lim);
-	for (Integer x : edges) {
-		Integer i = x / n;
-		Integer j = x % n;
-		if constexpr(DIR) {
-			if (i == j) i = n - 1;
-		} else {
-			if (j <= i) {
-				i = n - 2 - i;
-				j = n - 1 - j;
-			}
-		}
-		res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph (Erdös-Renyi)
-// each edge exists with probability p
-template<typename E = NoData, bool DIR = false>
-GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	Integer lim = n * (n-1);
-	if constexpr (!DIR) lim /= 2;
-	return randomGraph<E, DIR>(n, Random::binomial(lim, p));
-}
-
-// generate a random graph with linear growing degrees
-template<typename E = NoData>
-Graph<E> randomGrowingGraph(Integer n, Real p) {
-	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
-	Graph<E> res(n);
-	for (Integer i = 0; i < n; i++) {
-		Integer deg = p * Random::real(0, i+1);
-		auto neighbours = Random::distinct(deg, 0, i);
-		for (Integer j : neighbours) res.addEdge(i, j);
-	}
-	return res;
-}
-
-// generate a random graph with a given degree sequence
-// (not uniform...)
-template<typename E = NoData>
-Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
-	Graph<E> res(std::ssize(degree));
-	// havel hakimi in O(m*log(n))
-	std::priority_queue<std::pair<Integer, Integer>> pq;
-	for (Integer i = 0; i < std::ssize(degree); i++) {
-		if (degree[i] < 0) {
-			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
-		}
-		if (degree[i] > 0) {
-			pq.emplace(degree[i], i);
-		}
-	}
-	while (!pq.empty()) {
-		auto [d, c] = pq.top();
-		pq.pop();
-		if (std::ssize(pq) < d or d < 0) {
-			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
-		}
-		std::vector<std::pair<Integer, Integer>> todo;
-		for (Integer i = 0; i < d; i++) {
-			auto [dd, cc] = pq.top();
-			pq.pop();
-			res.addEdge(c, cc);
-			dd--;
-			if (dd > 0) todo.emplace_back(dd, cc);
-		}
-		for (const auto& e : todo) pq.push(e);
-	}
-	if (res.edgeCount() == 0) return res;
-	// randomly flip edges O(m*log(n))
-	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
-		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
-		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
-		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
-		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
-		res.eraseEdge(a.from, a.to);
-		res.eraseEdge(b.from, b.to);
-		res.addEdge(a.from, b.to);
-		res.addEdge(b.from, a.to);
-	}
-	return res;
-}
-
-// generates a worstcase instance for Ford Fulkerson with dfs.
-// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
-// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
-// Note that the specific order of edghes is required
-DiGraph<Integer> ffWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
-	DiGraph<Integer> res(2 * n);
-	res.addEdge(n-1, n, 1);
-	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
-		res.addEdge(i, i+1, c);
-		res.addEdge(i, j-1, c);
-		res.addEdge(i+1, j, c);
-		res.addEdge(j-1, j, c);
-	}
-	return res;
-}
-
-// generates a worstcase instance for various min cost max flow algorithms.
-// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
-// Figure 4: https://link.springer.com/article/10.1007/BF01580132
-DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
-	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
-	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
-	Integer inf = 5 * (1ll << n) / 4;
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
-	}
-	res.addEdge(1, n + 1, {inf, 0});
-	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; j < n; j++) {
-			if (i == j) continue;
-			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
-		}
-	}
-	for (Integer i = 0; i < n; i++) {
-		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
-	}
-	return res;
-}
-
-#endif
+//============================================================================//
+// graph_gen.h                                                                //
+//============================================================================//
+// This header can be used to Generate graphs. We support:                    //
+// - directed, undirected and weighted graphs                                 //
+// - uniform tree sampling                                                    //
+// - erdös renyi random graphs                                                //
+// - random graphs with a given degree sequence                               //
+// - random graphs with a power low distribution                              //
+// - various operations to construct graphs                                   //
+// This header requires validate.h zo to generate random graphs in a          //
+// deterministic and reproducable fashion.                                    //
+//============================================================================//
+//version 1.0.11                                                              //
+//https://github.com/mzuenni/icpc-header                                      //
+//============================================================================//
+
+#ifndef GRAPH_GENERATOR_H
+#define GRAPH_GENERATOR_H
+
+#include <cassert>
+#include <cstddef>
+#include <deque>
+#include <iostream>
+#include <ostream>
+#include <optional>
+#include <ostream>
+#include <queue>
+#include <random>
+#include <set>
+#include <utility>
+#include <ranges>
+#include <vector>
+#include "validate.h"
+
+namespace GraphDetail {
+	struct NoData final {};
+	constexpr NoData NOTHING;
+
+	// EdgeWrapper may be returned by some function
+	template<typename E, typename = void>
+	struct EdgeWrapper final {
+		const Integer from, to;
+		E& data;
+		EdgeWrapper(Integer from_, Integer to_, E& data_) : from(from_), to(to_), data(data_) {}
+
+		E& operator*() {
+			return data;
+		}
+		const E& operator*() const {
+			return data;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			os << " " << *e;
+			return os;
+		}
+	};
+	template<typename E>
+	struct EdgeWrapper<E, typename std::enable_if_t<std::is_same_v<std::remove_cv_t<E>, NoData>>> final {
+		const Integer from, to;
+		EdgeWrapper(Integer from_, Integer to_) : from(from_), to(to_) {}
+		EdgeWrapper(Integer from_, Integer to_, E& /**/) : EdgeWrapper(from_, to_) {}
+
+		E& operator*() const {return NOTHING;}
+
+		friend std::ostream& operator<<(std::ostream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const EdgeWrapper& e) {
+			os << e.from << " " << e.to;
+			return os;
+		}
+	};
+
+	// EdgeType is the internel representation of an edge that should never get exposed!
+	template<typename E>
+	struct EdgeType final {
+		// we use key(from, to) = from^to for efficiency
+		// the key function must have the following properties:
+		// key(a, b) == key(b, a)
+		// to1 != to2 <=> key(from, to1) != key(from, to2)
+		// from1 != from2 <=> key(from1, to) != key(from2, to)
+		Integer fromXorTo, to;
+		E data;
+		EdgeType(Integer fromXorTo_, Integer to_, const E& data_) : fromXorTo(fromXorTo_), to(to_), data(data_) {}
+		EdgeType(Integer fromXorTo_, Integer to_, E&& data_) : fromXorTo(fromXorTo_), to(to_), data(std::forward<E>(data_)) {}
+	};
+
+	template<typename E>
+	struct EdgePointerCompair final {
+		using is_transparent = std::true_type;
+		constexpr bool operator()(const EdgeType<E>* t, const EdgeType<E>* u) const {
+			return t->fromXorTo < u->fromXorTo;
+		}
+		constexpr bool operator()(const EdgeType<E>* t, Integer u) const {
+			return t->fromXorTo < u;
+		}
+		constexpr bool operator()(Integer t, const EdgeType<E>* u) const {
+			return t < u->fromXorTo;
+		}
+	};
+
+	template<typename E, bool DIR>
+	class GraphType final {
+		// do not change!
+		static constexpr Integer DEFAULT_MIN_ID = 0;
+
+		template<typename, bool> friend class GraphType;
+		using EdgeTypeValue = E;
+		using Edge = EdgeWrapper<E>;
+		using ConstEdge = EdgeWrapper<const E>;
+		using InternalEdge = EdgeType<E>;
+		using Graph = GraphType<E, DIR>;
+
+		std::deque<std::set<InternalEdge*, EdgePointerCompair<E>>> adj;
+		std::deque<InternalEdge> edges;
+		Integer minId;
+
+		inline void assertNode(Integer id) const {
+			if (id < minId or id >= minId + nodeCount()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [" + std::to_string(minId) + ", " + std::to_string(minId + nodeCount()) + ") !");
+			}
+		}
+
+		auto addEdge(InternalEdge* e) {
+			Integer from = e->fromXorTo ^ e->to;
+			Integer to = e->to;
+			if constexpr (!DIR) if (from != to) adj[to - minId].emplace(e);
+			return adj[from - minId].emplace(e).first;
+		}
+
+		void emplaceEdge(Integer from, Integer to, const E& data = {}) {
+			edges.emplace_back(from ^ to, to, data);
+		}
+
+		void buildAdj() {
+			for (auto& e : edges) addEdge(&e);
+		}
+	public:
+		// construct empty graph with vertices in [from, to)
+		explicit GraphType(Integer from, Integer to) :
+			adj(to - from),
+			minId(from) {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph::from must not be greater than to!");
+		}
+		// construct empty graph with vertices in [0, n)
+		explicit GraphType(Integer n = 0) :
+			GraphType(DEFAULT_MIN_ID, n) {}
+
+		// copy graphs without breaking pointers
+		GraphType(const Graph& o) :
+			adj(o.size()),
+			edges(o.edges),
+			minId(o.minId) {
+			buildAdj();
+		}
+		Graph& operator=(const Graph& o) {
+			if (&o != this) {
+				adj.clear();
+				adj.resize(o.size());
+				edges = o.edges;
+				minId = o.minId;
+				buildAdj();
+			}
+			return *this;
+		}
+		Graph copy() const {
+			return *this;
+		}
+
+		//basic graph parameters
+		std::size_t size() const {
+			return adj.size();
+		}
+
+		Integer nodeCount() const {
+			return static_cast<Integer>(adj.size());
+		}
+
+		Integer edgeCount() const {
+			return static_cast<Integer>(edges.size());
+		}
+
+		Integer degree(Integer id) const {
+			assertNode(id);
+			return static_cast<Integer>(adj[id - minId].size());
+		}
+
+		Integer getMinId() const {
+			return minId;
+		}
+
+		Graph& setMinId(Integer newminId) {
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				Integer from = e.fromXorTo ^ e.to;
+				Integer to = e.to;
+				from = from - minId + newminId;
+				to = to - minId + newminId;
+				e.fromXorTo = from ^ to;
+				e.to = to;
+			}
+			minId = newminId;
+			buildAdj();
+			return *this;
+		}
+
+		Integer getNextId() const {
+			return minId + nodeCount();
+		}
+
+		Graph& normalize() {
+			return setMinId(DEFAULT_MIN_ID);
+		}
+
+		Graph range(Integer from, Integer to) const {
+			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
+			Graph res(from, to);
+			for (const auto& e : getEdges()) {
+				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
+					res.addEdge(e.from, e.to, *e);
+				}
+			}
+			return res;
+		}
+
+		// basic graph operations
+		std::optional<Edge> findEdge(Integer from, Integer to) & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return Edge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		std::optional<ConstEdge> findEdge(Integer from, Integer to) const & {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				return ConstEdge(from, to, (*it)->data);
+			} else {
+				return {};
+			}
+		}
+
+		// ids may change!
+		Edge getEdgeById(std::size_t id) & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return Edge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		ConstEdge getEdgeById(std::size_t id) const & {
+			if (id >= edges.size()) {
+				throw std::out_of_range("Index \"" + std::to_string(id) + "\" out of range [0, " + std::to_string(edges.size()) + ") !");
+			}
+			return ConstEdge(edges[id].fromXorTo ^ edges[id].to, edges[id].to, edges[id].data);
+		}
+
+		bool hasEdge(Integer from, Integer to) const {
+			assertNode(from);
+			assertNode(to);
+			return adj[from - minId].find(from ^ to) != adj[from - minId].end();
+		}
+
+		Edge addEdge(Integer from, Integer to, const E& data = {}) & {
+			assertNode(from);
+			assertNode(to);
+			judgeAssert(from != to, "Graph: invalid selfloop!");
+			auto it = adj[from - minId].find(from ^ to);
+			if (it == adj[from - minId].end()) {
+				emplaceEdge(from, to, data);
+				it = addEdge(&(edges.back()));
+			} else {
+				(*it)->data = data;
+			}
+			return Edge(from, to, (*it)->data);
+		}
+
+		bool eraseEdge(Integer from, Integer to) {
+			assertNode(from);
+			assertNode(to);
+			auto it = adj[from - minId].find(from ^ to);
+			if (it != adj[from - minId].end()) {
+				InternalEdge* a = *it;
+				InternalEdge* b = &(edges.back());
+				adj[from - minId].erase(a);
+				if constexpr (!DIR) adj[to - minId].erase(a);
+				from = b->fromXorTo ^ b->to;
+				to = b->to;
+				adj[from - minId].erase(b);
+				if constexpr (!DIR) adj[to - minId].erase(b);
+				std::swap(*a, *b);
+				edges.pop_back();
+				if (a != b) addEdge(a);
+				return true;
+			} else {
+				return false;
+			}
+		}
+
+		bool eraseEdge(const Edge& edge) {
+			return eraseEdge(edge.from, edge.to);
+		}
+
+		std::ranges::view auto getEdges() const & {
+			return std::views::all(edges)
+				 | std::views::transform([](const InternalEdge& edge){
+				return ConstEdge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto getEdges() & {
+			return std::views::all(edges)
+				 | std::views::transform([](InternalEdge& edge){
+				return Edge(edge.fromXorTo ^ edge.to, edge.to, edge.data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) const & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return ConstEdge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto operator[](Integer id) & {
+			assertNode(id);
+			return std::views::all(adj[id-minId])
+				 | std::views::transform([id](InternalEdge* edge){
+				return Edge(id, edge->fromXorTo ^ id, edge->data);
+			});
+		}
+
+		std::ranges::view auto getDegrees() const & {
+			return std::views::all(adj)
+				 | std::views::transform([](auto& n){
+				return n.size();
+			});
+		}
+
+		// more basic graph operations
+		Graph& combine(const Graph& o) {
+			if (&o != this) {
+				while (minId > o.minId) {
+					minId--;
+					adj.emplace_front();
+				}
+				while (minId + nodeCount() < o.minId + o.nodeCount()) {
+					adj.emplace_back();
+				}
+				for (const auto& e : o.edges) {
+					addEdge(e.fromXorTo ^ e.to, e.to, e.data);
+				}
+			}
+			return *this;
+		}
+
+		Graph& append(const Graph& o) {
+			//assert(&o != this); // should work
+			Integer diff = nodeCount() + minId - o.minId;
+			adj.resize(nodeCount() + o.nodeCount());
+			for (std::size_t i = 0, j = o.edges.size(); i < j; i++) {
+				Integer to = o.edges[i].to;
+				Integer from = o.edges[i].fromXorTo ^ to;
+				addEdge(from + diff, to + diff, o.edges[i].data);
+			}
+			return *this;
+		}
+
+		Graph& permutateEdges() {
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			if constexpr(!DIR) {
+				for (auto& e : edges) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate(const std::vector<Integer>& perm) {
+			judgeAssert<std::invalid_argument>(perm.size() == size() and isPerm(perm, minId), "Graph: not a permutation");
+			for (auto& n : adj) n.clear();
+			Random::shuffle(edges.begin(), edges.end());
+			for (auto& e : edges) {
+				if constexpr (!DIR) {
+					if (Random::bit()) {
+						e.to ^= e.fromXorTo;
+					}
+				}
+				e.fromXorTo ^= e.to;
+				e.fromXorTo = perm[e.fromXorTo - minId];
+				e.to = perm[e.to - minId];
+				e.fromXorTo ^= e.to;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		Graph& permutate() {
+			std::vector<Integer> perm(size());
+			std::iota(perm.begin(), perm.end(), minId);
+			Random::shuffle(perm.begin(), perm.end());
+			return permutate(perm);
+		}
+
+		Graph subgraph(Integer m) const {
+			if (m >= edgeCount()) return *this;
+			Graph res(minId, minId + nodeCount());
+			auto todo = Random::distinct(m, 0, edgeCount());
+			for (auto id : todo) res.edges.emplace_back(edges[id]);
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true>& reverse() {
+			static_assert(DIR, "Graph: reverse() is only available on directed graphs!");
+			for (auto& n : adj) n.clear();
+			for (auto& e : edges) {
+				e.to ^= e.fromXorTo;
+			}
+			buildAdj();
+			return *this;
+		}
+
+		GraphType<E, false> undirected() const {
+			static_assert(DIR, "Graph: undirected() is only available on directed graphs!");
+			GraphType<E, false> res(minId, minId + nodeCount());
+			for (const auto e : getEdges()) {
+				res.addEdge(e.from, e.to, *e);
+			}
+			return res;
+		}
+
+		template<typename PRED>
+		GraphType<E, true> directed(const PRED&& p) const {
+			static_assert(!DIR, "Graph: directed() is only available on undirected graphs!");
+			GraphType<E, true> res(minId, minId + nodeCount());
+			for (const auto& e : getEdges()) {
+				if constexpr (std::is_invocable_r_v<bool, PRED, Integer, Integer, const E&>) {
+					if (p(e.from, e.to, *e)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from, *e)) res.emplaceEdge(e.to, e.from, *e);
+				} else {
+					static_assert(std::is_invocable_r_v<bool, PRED, Integer, Integer>, "Graph: pred has wrong signature!");
+					if (p(e.from, e.to)) res.emplaceEdge(e.from, e.to, *e);
+					if (p(e.to, e.from)) res.emplaceEdge(e.to, e.from, *e);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		GraphType<E, true> directed() const {
+			return directed([](Integer /**/, Integer /**/){
+				return true;
+			});
+		}
+
+		Graph complement() const {
+			Graph res(minId, minId + nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				for (Integer j = 0; j < i; j++) {
+					if (!hasEdge(i + minId, j + minId)) {
+						res.emplaceEdge(i + minId, j + minId);
+					}
+					if constexpr (DIR) {
+						if (!hasEdge(j + minId, i + minId)) {
+							res.emplaceEdge(j + minId, i + minId);
+						}
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		// advanced graph operations
+		Graph power(Integer k) const {
+			Graph res(minId, minId + nodeCount());
+			std::vector<bool> seen(nodeCount());
+			for (Integer i = 0; i < nodeCount(); i++) {
+				std::vector<std::pair<Integer, Integer>> queue = {{i, 0}};
+				for (std::size_t j = 0; j < queue.size(); j++) {
+					auto [c, d] = queue[j];
+					if (d < k) {
+						for (const auto& e : (*this)[c + minId]) {
+							if (!seen[e.to - minId]) {
+								seen[e.to - minId] = true;
+								queue.emplace_back(e.to - minId, d + 1);
+							}
+						}
+					}
+				}
+				for (auto [c, d] : queue) {
+					seen[c] = false;
+					if (DIR ? i != c : i < c) {
+						res.emplaceEdge(i + minId, c + minId);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph transitiveClosure() const {
+			return power(nodeCount());
+		}
+
+		Graph product(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b - o.minId) * nodeCount() + (a - minId);
+			};
+			for (const auto& e1 : getEdges()) {
+				for (const auto& e2 : o.getEdges()) {
+					res.emplaceEdge(newId(e1.from, e2.from), newId(e1.to, e2.to));
+					res.emplaceEdge(newId(e1.from, e2.to), newId(e1.to, e2.from));
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph cartesian(const Graph& o) const {
+			Graph res(nodeCount() * o.nodeCount());
+			auto newId = [&](Integer a, Integer b){
+				return (b-o.minId) * nodeCount() + (a-minId);
+			};
+			for (const auto& e : o.getEdges()) {
+				for (Integer i = 0; i < nodeCount(); i++) {
+					Integer from = newId(i + minId, e.from);
+					Integer to = newId(i + minId, e.to);
+					res.emplaceEdge(from, to);
+				}
+			}
+			for (const auto& e : getEdges()) {
+				for (Integer i = 0; i < o.nodeCount(); i++) {
+					Integer from = newId(e.from, i + o.minId);
+					Integer to = newId(e.to, i + o.minId);
+					res.emplaceEdge(from, to);
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		Graph strongProduct(const Graph& o) const {
+			static_assert(!DIR, "Graph: product() is only available on undirected graphs!");
+			return o.cartesian(*this).combine(o.product(*this));
+		}
+
+		Graph lineGraph() const {
+			GraphType<Integer, DIR> tmp(minId, minId + nodeCount());
+			Integer nextEdge = 0;
+			for (const auto& e : getEdges()) {
+				tmp.emplaceEdge(e.from, e.to, nextEdge);
+				nextEdge++;
+			}
+			tmp.buildAdj();
+			Graph res(nextEdge);
+			for (const auto& e1 : tmp.getEdges()) {
+				if constexpr (DIR) {
+					for (const auto& e2 : tmp[e1.to]) {
+						res.emplaceEdge(*e1, *e2);
+					}
+				} else {
+					for (const auto& e2 : tmp[e1.to]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+					for (const auto& e2 : tmp[e1.from]) {
+						if (*e1 < *e2) res.emplaceEdge(*e1, *e2);
+					}
+				}
+			}
+			res.buildAdj();
+			return res;
+		}
+
+		friend std::ostream& operator<<(std::ostream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+		friend OutputStream& operator<<(OutputStream& os, const Graph& g) {
+			os << g.nodeCount() << " " << g.edgeCount();
+			for (const auto& e : g.getEdges()) os << '\n' << e;
+			return os;
+		}
+
+	};
+} // GraphDetail
+
+using NoData = GraphDetail::NoData;
+
+template<typename E = GraphDetail::NoData>
+using Edge = GraphDetail::EdgeWrapper<E>;
+
+template<typename E = GraphDetail::NoData>
+using Graph = GraphDetail::GraphType<E, false>;
+
+template<typename E = GraphDetail::NoData>
+using DiGraph = GraphDetail::GraphType<E, true>;
+
+// n independed vertices in range [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> independent(Integer n) {
+	return GraphDetail::GraphType<E, DIR>(n);
+}
+
+// n connected vertices in range [0, n)
+// if directed all edges go from i to j with i < j
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> clique(Integer n) {
+	// could be implemented as linegraph of a star.
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer j = 0; j < n; j++) {
+		for (Integer i = 0; i < j; i++) {
+			res.addEdge(i, j);
+		}
+	}
+	return res;
+}
+
+// complete bipartite graph with partition [0, n) and [n, n+m)
+// if directed all edges go from [0, n) to [n, n+m)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> bipartite(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < m; j++) {
+			res.addEdge(i, n + j);
+		}
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with a given number of edges k
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k) {
+	GraphDetail::GraphType<E, DIR> res(n+m);
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	auto edges = Random::distinct(k, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x % n;
+		Integer j = x / n + n;
+		if constexpr(DIR) {
+			if (x >= n * m) {
+				j -= m;
+				std::swap(i, j);
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random bipartite graph (like Erdös-Renyi) with partitions [0, n) and [n, n+m)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
+	Integer lim = n * m;
+	if constexpr (DIR) lim *= 2;
+	return randomBipartite<E, DIR>(n, m, Random::binomial(lim, p));
+}
+
+// star with root = 0 and chilrden [1, leaves]
+// if directed all edges go the root to [1, leaves)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> star(Integer leaves) {
+	return bipartite<E, DIR>(1, leaves);
+}
+
+// path 0-1-2-...-edges with vertices [0, edges]
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> path(Integer edges) {
+	GraphDetail::GraphType<E, DIR> res(edges+1);
+	for (Integer i = 0; i < edges; i++) {
+		res.addEdge(i, i + 1);
+	}
+	return res;
+}
+
+// path 0-1-2-...-n-1-0 with vertices [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> cycle(Integer n) {
+	auto p = path<E, DIR>(n-1);
+	p.addEdge(n - 1, 0);
+	return p;
+}
+
+// wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
+template<typename E = NoData>
+Graph<E> wheel(Integer outer) {
+	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
+}
+
+// lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
+// p is the vertex where clique and path are connected
+template<typename E = NoData>
+Graph<E> lolly(Integer p, Integer c) {
+	return path<E>(p).combine(clique<E>(c).setMinId(p));
+}
+
+// broom graph with a path with p edges [0, p] and a star [p, p+l]
+// p is the vertex where star and path are connected
+template<typename E = NoData>
+Graph<E> broom(Integer p, Integer l) {
+	return path<E>(p).combine(star<E>(l).setMinId(p));
+}
+
+// n times m grid
+// 0-1-...-n-1
+// | |      |
+// n- ... -2*n-1
+// |        |
+// .        .
+//          |
+//        -n*m-1
+template<typename E = NoData>
+Graph<E> grid(Integer n, Integer m) {
+	return path<E>(n-1).cartesian(path<E>(m-1));
+}
+template<typename E = NoData>
+Graph<E> grid(Integer n) {
+	return grid<E>(n, n);
+}
+
+// n dimensional hyper cube with vertices [0, 2^dimension)
+// a-b <=> |a^b|=1
+template<typename E = NoData>
+Graph<E> hypercube(Integer dimension) {
+	if (dimension < 2) return clique<E>(dimension+1);
+	return hypercube<E>(dimension-1).cartesian(clique<E>(2));
+}
+
+// complete tree with root at 0 and all subtrees are consecutive
+// vertices in [0, (children^{level+1}-1)/(children-1))
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
+	if (level <= 2) return star<E, DIR>(children);
+	GraphDetail::GraphType<E, DIR> res(1);
+	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
+	for (Integer i = 0; i < children; i++) {
+		Integer next = res.nodeCount();
+		res.append(sub);
+		res.addEdge(0, next);
+	}
+	return res;
+}
+
+
+// complete boolean lattice i->j <=> i|j==j
+// vertices in [0, 2^level)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> booleanLattice(Integer level) {
+	GraphDetail::GraphType<E, DIR> res(1 << level);
+	for (Integer i = 0; i < res.nodeCount(); i++) {
+		for (Integer j = 1; j < res.nodeCount(); j*=2) {
+			if ((i | j) == i) {
+				res.addEdge(i, i^j);
+			}
+		}
+	}
+	return res;
+}
+
+// prefix of the rado graph i->j <=> i<j and j[i] == true;
+// vertices in [0, n)
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> rado(Integer n) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; (1ll << j) <= i; j++) {
+			if ((i | (1ll << j)) == i) {
+				res.addEdge(j, i);
+			}
+		}
+	}
+	return res;
+}
+
+// generate a tree from a pruefer code
+// values should be in [0, sz(code)+2)
+template<typename E = NoData>
+Graph<E> pruefer(const std::vector<Integer>& code) {
+	Graph<E> res(code.size() + 2);
+	std::vector<Integer> count(res.nodeCount());
+	for (Integer x : code) {
+		judgeAssert<std::invalid_argument>(0 <= x and x < res.nodeCount(), "pruefer(): Invalid code!");
+		count[x]++;
+	}
+	Integer current = -1;
+	Integer skip = -1;
+	auto getNext = [&](){
+		Integer oldSkip = skip;
+		skip = -1;
+		if (0 <= oldSkip and oldSkip <= current) return oldSkip;
+		for (current++; count[current] > 0; current++) {}
+		return current;
+	};
+	for (Integer x : code) {
+		Integer y = getNext();
+		res.addEdge(x, y);
+		count[x]--;
+		if (count[x] == 0) skip = x;
+	}
+	Integer x = getNext();
+	Integer y = getNext();
+	res.addEdge(x, y);
+	return res;
+}
+
+// generate a random tree with vertices [0, n)
+// if directed 0 is the root
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomTree(Integer n) {
+	if constexpr (!DIR) {
+		if (n <= 2) return clique<E>(n);
+		std::vector<Integer> code(n - 2);
+		for (Integer& x : code) x = Random::integer(n);
+		return pruefer<E>(code);
+	} else {
+		Graph<NoData> tmp = randomTree<NoData, false>(n);
+		DiGraph<E> res(n);
+		auto dfs = [&tmp, &res](auto&& self, Integer cur, Integer pref) -> void {
+			for (auto edge : tmp[cur]) {
+				if (edge.to == pref) continue;
+				res.addEdge(cur, edge.to);
+				self(self, edge.to, cur);
+			}
+		};
+		dfs(dfs, tmp.getMinId(), tmp.getMinId() - 1);
+		return res;
+	}
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with a given number of edges m
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
+	GraphDetail::GraphType<E, DIR> res(n);
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	auto edges = Random::distinct(m, 0, lim);
+	for (Integer x : edges) {
+		Integer i = x / n;
+		Integer j = x % n;
+		if constexpr(DIR) {
+			if (i == j) i = n - 1;
+		} else {
+			if (j <= i) {
+				i = n - 2 - i;
+				j = n - 1 - j;
+			}
+		}
+		res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph (Erdös-Renyi)
+// each edge exists with probability p
+template<typename E = NoData, bool DIR = false>
+GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
+	Integer lim = n * (n-1);
+	if constexpr (!DIR) lim /= 2;
+	return randomGraph<E, DIR>(n, Random::binomial(lim, p));
+}
+
+// generate a random graph with linear growing degrees
+template<typename E = NoData>
+Graph<E> randomGrowingGraph(Integer n, Real p) {
+	judgeAssert<std::domain_error>(0.0_real <= p and p <= 1.0_real, "randomGrowingGraph(): p must be in [0,1]!");
+	Graph<E> res(n);
+	for (Integer i = 0; i < n; i++) {
+		Integer deg = p * Random::real(0, i+1);
+		auto neighbours = Random::distinct(deg, 0, i);
+		for (Integer j : neighbours) res.addEdge(i, j);
+	}
+	return res;
+}
+
+// generate a random graph with a given degree sequence
+// (not uniform...)
+template<typename E = NoData>
+Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips = 10) {
+	Graph<E> res(std::ssize(degree));
+	// havel hakimi in O(m*log(n))
+	std::priority_queue<std::pair<Integer, Integer>> pq;
+	for (Integer i = 0; i < std::ssize(degree); i++) {
+		if (degree[i] < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
+		if (degree[i] > 0) {
+			pq.emplace(degree[i], i);
+		}
+	}
+	while (!pq.empty()) {
+		auto [d, c] = pq.top();
+		pq.pop();
+		if (std::ssize(pq) < d or d < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
+		std::vector<std::pair<Integer, Integer>> todo;
+		for (Integer i = 0; i < d; i++) {
+			auto [dd, cc] = pq.top();
+			pq.pop();
+			res.addEdge(c, cc);
+			dd--;
+			if (dd > 0) todo.emplace_back(dd, cc);
+		}
+		for (const auto& e : todo) pq.push(e);
+	}
+	if (res.edgeCount() == 0) return res;
+	// randomly flip edges O(m*log(n))
+	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
+		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
+		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
+		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
+		if (b.from == a.to or res.hasEdge(b.from, a.to)) continue;
+		res.eraseEdge(a.from, a.to);
+		res.eraseEdge(b.from, b.to);
+		res.addEdge(a.from, b.to);
+		res.addEdge(b.from, a.to);
+	}
+	return res;
+}
+
+// generates a worstcase instance for Ford Fulkerson with dfs.
+// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
+// Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
+// Note that the specific order of edghes is required
+DiGraph<Integer> ffWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 63, "ffWorstcase(): n out of bounds");
+	DiGraph<Integer> res(2 * n);
+	res.addEdge(n-1, n, 1);
+	for (Integer i = n - 2, j = n+1, c = 1; j < 2 * n; i--, j++, c *= 2) {
+		res.addEdge(i, i+1, c);
+		res.addEdge(i, j-1, c);
+		res.addEdge(i+1, j, c);
+		res.addEdge(j-1, j, c);
+	}
+	return res;
+}
+
+// generates a worstcase instance for various min cost max flow algorithms.
+// The graph contains 2*n+2 vertices and has flow from 0 to 2*n+1.
+// Figure 4: https://link.springer.com/article/10.1007/BF01580132
+DiGraph<std::pair<Integer, Integer>> mcmfWorstcase(Integer n) {
+	judgeAssert(0 < n && n <= 60, "mcmfWorstcase(): n out of bounds");
+	DiGraph<std::pair<Integer, Integer>> res(2 * n + 2);
+	Integer inf = 5 * (1ll << n) / 4;
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(0, i + 1, {i < 2 ? 2 * i + 1 : 5ll << (i - 2), 0});
+	}
+	res.addEdge(1, n + 1, {inf, 0});
+	for (Integer i = 0; i < n; i++) {
+		for (Integer j = 0; j < n; j++) {
+			if (i == j) continue;
+			res.addEdge(i + 1, j + 1 + n, {inf, (1ll << std::max(i, j)) - 1});
+		}
+	}
+	for (Integer i = 0; i < n; i++) {
+		res.addEdge(i + 1 + n, 2 * n + 1, {i < 2 ? 2: 5ll << (i - 2), 0});
+	}
+	return res;
+}
+
+#endif
-- 
2.43.0


From e5f1445167a1a86e07c91fe4b8f89c9bcae70f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:59 +0000
Subject: [PATCH 41/50] fix: exhausted memory is not an unparsable number
 (DOUBLE_FALLBACK)

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 123d198..103e3d0 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1012,7 +1012,7 @@ namespace details {
 			std::size_t pos = 0;
 			res = std::stold(std::string(s), &pos);
 			return pos == s.size();
-		} catch(...) {
+		} catch(const std::logic_error&) {
 			return false;
 		}
 	}
-- 
2.43.0


From f7b1ac5f0c07ce26a4fc96f20e8a94a3cf3e83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:13 +0000
Subject: [PATCH 42/50] fix: exhausted memory is not an unparsable number
 (realStrict)

---
 src/validate.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 103e3d0..bcc22ac 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2662,18 +2662,12 @@ public:
 			fail();
 			return 0;
 		}
-		try {
-			Real res = parse<Real>(t);
-			if (std::isnan(res) or !(res >= lower) or !(res < upper)) {
-				*out << "Real " << res << " out of range [" << lower << ", " << upper << ")!";
-				fail();
-			}
-			return res;
-		} catch(...) {
-			*out << "Could not parse token \"" << t << "\" as real!";
+		Real res = parse<Real>(t);
+		if (std::isnan(res) or !(res >= lower) or !(res < upper)) {
+			*out << "Real " << res << " out of range [" << lower << ", " << upper << ")!";
 			fail();
-			return 0;
 		}
+		return res;
 	}
 
 	Real realStrict(Real lower, Real upper, Integer minDecimals, Integer maxDecimals, Constraint& constraint) {
-- 
2.43.0


From 54d247d7f36a12bb61953665c8562a5845d38493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 43/50] fix: PNG drawing with a colour taken from the image
 itself

---
 src/visualizer_png.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index 154a12f..2d61b6e 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -339,7 +339,7 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void fillRectangle(const Point& a, const Point& b, const Color border, const Color& fill) {
+	void fillRectangle(const Point& a, const Point& b, const Color border, const Color fill) {
 		for (Integer y = std::min(a.y, b.y); y <= std::max(a.y, b.y); y++) {
 			for (Integer x = std::min(a.x, b.x); x <= std::max(a.x, b.x); x++) {
 				if (y == a.y or y == b.y or x == a.x or x == b.x) {
@@ -357,7 +357,7 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void floodFill(const Point& a, const Color& fill) {
+	void floodFill(const Point& a, const Color fill) {
 		std::vector<Point> todo = {a};
 		Color old = colors[a.y][a.x];
 		colors[a.y][a.x] = details::combine<M>(colors[a.y][a.x], fill);
@@ -376,7 +376,7 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void drawLine(const Point& a, const Point& b, const Color& fill) {
+	void drawLine(const Point& a, const Point& b, const Color fill) {
 		// Bresenham Algorithm
 		Integer dx = std::abs(b.x - a.x);
 		Integer sx = (a.x - b.x < 0) - (a.x - b.x > 0);
-- 
2.43.0


From dbb16d3a180a74cb51d88b0c81c42c8a2e5da22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 44/50] fix: isPerm() read out of bounds if the distance to the
 offset overflows

---
 src/validate.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index bcc22ac..28aff0d 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -564,10 +564,13 @@ auto isPerm(RandomIt first, RandomIt last, typename std::iterator_traits<RandomI
 	std::vector<bool> seen(count, false);
 	for (; first != last; first++) {
 		const T& x = *first;
-		if (x < offset or x - offset >= count or seen[x - offset]) {
+		// the difference may not fit into T
+		using U = std::make_unsigned_t<decltype(x - offset)>;
+		U i = static_cast<U>(x) - static_cast<U>(offset);
+		if (x < offset or i >= seen.size() or seen[i]) {
 			return boolean<T>(false, x);
 		}
-		seen[x - offset] = true;
+		seen[i] = true;
 	}
 	return boolean<T>(true);
 }
-- 
2.43.0


From f1e505aaa2cfbe72a055373265eaef25b0cdc9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:09 +0000
Subject: [PATCH 45/50] fix: multInv() of negative numbers

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 28aff0d..ccf572d 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1129,7 +1129,7 @@ constexpr Integer multInv(Integer n, Integer mod) {
 	judgeAssert<std::domain_error>(mod > 0, "multInv(): mod must be positive!");
 	Integer x = 0;
 	Integer y = 0;
-	Integer g = details::extendedEuclid(n, mod, x, y);
+	Integer g = details::extendedEuclid(applyMod(n, mod), mod, x, y);
 	if (g != 1) return -1;
 	else return applyMod(x, mod);
 }
-- 
2.43.0


From 000aa97212f1d06e6543ddc305ab6b176465a113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 46/50] fix: isConvex() accepted polygons which intersect
 themselves

---
 src/validate.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index ccf572d..d827327 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1258,14 +1258,20 @@ template<typename RandomIt>
 constexpr bool isConvex(RandomIt first, RandomIt last) {
 	std::size_t n = details::assertBounds(first, last);
 	if (n < 3) return false;
-	bool hasArea = false;
+	std::size_t changes = 0;
 	for (std::size_t i = 0; i < n; i++) {
-		if (first[i] == first[(i+1) % n]) return false;
-		if (cross(first[0], first[i], first[(i+1) % n]) < 0) return false;
-		if (cross(first[i], first[(i+1) % n], first[(i+2) % n]) < 0) return false;
-		hasArea |= cross(first[i], first[(i+1) % n], first[(i+2) % n]) != 0;
-	}
-	return hasArea;
+		auto a = first[(i+1) % n];
+		auto b = first[(i+2) % n];
+		getX(b) -= getX(a);
+		getY(b) -= getY(a);
+		getX(a) -= getX(first[i]);
+		getY(a) -= getY(first[i]);
+		if (getX(a) == 0 and getY(a) == 0) return false;
+		if (cross(a, b) < 0) return false;
+		if (cross(a, b) == 0 and dot(a, b) < 0) return false;
+		changes += details::left(a) != details::left(b);
+	}
+	return changes == 2; // the edges turn around exactly once
 }
 template<typename C>
 constexpr bool isConvex(const C& c) {
-- 
2.43.0


From 6ff45da5ff8446c4df8f6d8ea286bbbc21a39aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 47/50] fix: isSimple() accepted polygons with overlapping
 adjacent edges

---
 src/validate.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/validate.h b/src/validate.h
index d827327..f25095e 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1252,6 +1252,18 @@ namespace details {
 		}
 		return n;
 	}
+
+	// b is a turning point, i.e. the segments ab and bc overlap
+	template<typename Point>
+	constexpr bool isSpike(const Point& a, const Point& b, const Point& c) {
+		Point ba = a;
+		Point bc = c;
+		getX(ba) -= getX(b);
+		getY(ba) -= getY(b);
+		getX(bc) -= getX(b);
+		getY(bc) -= getY(b);
+		return cross(ba, bc) == 0 and dot(ba, bc) > 0;
+	}
 }
 
 template<typename RandomIt>
@@ -1323,6 +1335,7 @@ bool isSimple(RandomIt first, RandomIt last) {
 
 	std::vector<std::tuple<Integer, Integer, bool, bool, std::size_t>> events;
 	for (std::size_t i = 0; i < n; i++) {
+		if (details::isSpike(first[i], first[(i+1) % n], first[(i+2) % n])) return false;
 		bool swap = false;
 		Point a = first[i];
 		Point b = first[(i+1) % n];
-- 
2.43.0


From 9b3b9498403ac84512269e338222e3dbd7b27d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:57 +0000
Subject: [PATCH 48/50] fix: powMod() of exponent 0 modulo 1

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index f25095e..01c3b5f 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1069,7 +1069,7 @@ namespace details {
 	}
 
 	constexpr UInteger powMod(UInteger base, UInteger exp, UInteger mod) {
-		UInteger res = 1;
+		UInteger res = 1 % mod;
 		if (mod <= 0x1'0000'0000) {
 			while (exp > 0) {
 				if (exp & 1) res = (base * res) % mod;
-- 
2.43.0


From 3b3dd50a09f0c5a8769a0f3d80ec773745212d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:29 +0000
Subject: [PATCH 49/50] fix: primes() crashed if upper is close to the largest
 Integer

---
 src/validate.h | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 01c3b5f..c96aba2 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1166,29 +1166,30 @@ constexpr bool isPrime(Integer n) {
 
 std::vector<Integer> primes(Integer lower, Integer upper) {
 	judgeAssert<std::invalid_argument>(lower < upper, "primes(): Lower must be less than upper!");
-	lower = std::max<Integer>(2, lower);
-	upper = std::max<Integer>(2, upper);
-	Integer count = std::min<Integer>(0x3FFF'FFFF, upper - lower);
-	Integer cache = (count + 1) / 2;
+	// unsigned to stay in range even if upper is close to the largest Integer
+	UInteger from = static_cast<UInteger>(std::max<Integer>(2, lower));
+	UInteger to = static_cast<UInteger>(std::max<Integer>(2, upper));
+	UInteger count = std::min<UInteger>(0x3FFF'FFFF, to - from);
+	UInteger cache = (count + 1) / 2;
 
 	std::vector<bool> notPrime(cache), notPrimeSegment(cache);
-	for (Integer i = 3; i < count; i += 2) {
+	for (UInteger i = 3; i < count; i += 2) {
 		if (!notPrime[i / 2]) {
-			for (Integer j = i * i; j < count; j += 2 * i) {
+			for (UInteger j = i * i; j < count; j += 2 * i) {
 				notPrime[j / 2] = true;
 			}
-			Integer lowest = lower - (lower % (2*i)) + i;
-			if (lowest < lower) lowest += 2*i;
-			for (Integer j = std::max(i * i, lowest); j < upper; j += 2 * i) {
-				notPrimeSegment[(j - lower) / 2] = true;
+			UInteger lowest = from - (from % (2*i)) + i;
+			if (lowest < from) lowest += 2*i;
+			for (UInteger j = std::max(i * i, lowest); j < to; j += 2 * i) {
+				notPrimeSegment[(j - from) / 2] = true;
 			}
 		}
 	}
 	std::vector<Integer> res;
-	if (lower <= 2 and 2 < upper) res.emplace_back(2);
-	for (Integer i = lower | 1; i < upper; i += 2) {
-		if (!notPrimeSegment[(i - lower) / 2] and (i < count*count or isPrime(i))) {
-			res.emplace_back(i);
+	if (from <= 2 and 2 < to) res.emplace_back(2);
+	for (UInteger i = from | 1; i < to; i += 2) {
+		if (!notPrimeSegment[(i - from) / 2] and (i < count*count or isPrime(static_cast<Integer>(i)))) {
+			res.emplace_back(static_cast<Integer>(i));
 		}
 	}
 	return res;
-- 
2.43.0


From 5292f746a8412ff580dac580e31031f1e3cc4286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:41 +0000
Subject: [PATCH 50/50] fix: DOUBLE_FALLBACK refused subnormal numbers which
 are read otherwise

---
 src/validate.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index c96aba2..85c2c16 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -31,6 +31,7 @@
 #include <array>
 #include <bitset>
 #include <cctype>
+#include <cerrno>
 #include <cmath>
 #include <charconv>
 #include <complex>
@@ -1011,13 +1012,13 @@ namespace details {
 	#ifdef DOUBLE_FALLBACK
 	template<>
 	bool parse(std::string_view s, Real& res) {
-		try {
-			std::size_t pos = 0;
-			res = std::stold(std::string(s), &pos);
-			return pos == s.size();
-		} catch(const std::logic_error&) {
-			return false;
-		}
+		std::string str(s);
+		char* end = nullptr;
+		errno = 0;
+		res = std::strtold(str.c_str(), &end);
+		if (end != str.c_str() + str.size()) return false;
+		// subnormal values also set ERANGE but are not out of range
+		return errno != ERANGE or (res != 0.0_real and std::isfinite(res));
 	}
 	#endif
 	template<>
-- 
2.43.0

