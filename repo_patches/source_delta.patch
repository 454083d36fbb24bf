From 44541d397e2173e29ded4fabbe483ed0275e8a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 01/14] fix: base64_decode(): do not index the decode table
 with a negative char

---
 src/utki/base64.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index cd7e9c5..3587267 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -58,10 +58,10 @@ std::array<uint8_t, 3> base64_decode_quad(char a, char b, char c, char d)
 {
 	constexpr auto bits_per_char = 6;
 	uint32_t quad = //
-		(decode_table[a] << bits_per_char * 3) | //
-		(decode_table[b] << bits_per_char * 2) | //
-		(decode_table[c] << bits_per_char) | //
-		decode_table[d];
+		(decode_table[uint8_t(a)] << bits_per_char * 3) | //
+		(decode_table[uint8_t(b)] << bits_per_char * 2) | //
+		(decode_table[uint8_t(c)] << bits_per_char) | //
+		decode_table[uint8_t(d)];
 
 	return {
 		uint8_t((quad >> utki::byte_bits * 2) & utki::byte_mask), //
-- 
2.43.0


From 2a5ffdc88a51265729cb61563ea64b3656a106a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 02/14] fix: base64_decode(): do not read past the end when a
 single character is left over

---
 src/utki/base64.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index 3587267..a0f02ef 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -120,7 +120,9 @@ std::vector<uint8_t> utki::base64_decode(std::string_view str)
 
 	auto a = *i;
 	i = std::next(i);
-	ASSERT(i != str.end())
+	if (i == str.end()) {
+		throw std::invalid_argument("base64_decode(): malformed base64 string: incomplete last quad");
+	}
 	auto b = *i;
 	i = std::next(i);
 
-- 
2.43.0


From 2504866b814f676e5de1347d9255220ef1f6cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 03/14] fix: utf8_iterator: no too wide shift for lead bytes
 0xfe and 0xff

---
 src/utki/unicode.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 13488bf..97f6174 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -91,8 +91,11 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		this->c <<= 6; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 		this->c |= (*this->p) & 0x3f; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 	}
-	// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-	this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
+	// lead bytes 0xfe and 0xff carry no character bits
+	if (i < 7) { // NOLINT(cppcoreguidelines-avoid-magic-numbers)
+		// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
+		this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
+	}
 
 	return *this;
 }
-- 
2.43.0


From 05c31394638a6ed62884e7650c3bae7da0e51d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 04/14] fix: utf8_iterator: do not read past the terminating
 zero on truncated sequences

---
 src/utki/unicode.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 97f6174..fd6875c 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -44,7 +44,9 @@ static_assert(sizeof(char) == sizeof(uint8_t), "unexpected char size");
 
 utf8_iterator::utf8_iterator(const char* str) :
 	// NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast)
-	p(reinterpret_cast<const uint8_t*>(str))
+	p(reinterpret_cast<const uint8_t*>(str)),
+	// NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+	end(str ? this->p + strlen(str) : nullptr)
 {
 	this->operator++();
 }
-- 
2.43.0


From 579b86e77b07fece455aaf74d2895588f678b0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 05/14] fix: ends_with(): C++17 version failed when the suffix
 also occurs earlier in the string

---
 src/utki/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index 436da6a..bc23a52 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -849,7 +849,7 @@ inline bool ends_with(std::string_view str, std::string_view suffix)
 	if (suffix.size() > str.size()) {
 		return false;
 	}
-	return str.find(suffix) == (str.size() - suffix.size());
+	return str.substr(str.size() - suffix.size()) == suffix;
 #endif
 }
 
-- 
2.43.0


From 88b68f56bf0cf8ebf9f1c1f3682c31bd2bb13f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 06/14] fix: overlaps(): an empty span contains no address

---
 src/utki/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/span.hpp b/src/utki/span.hpp
index a467095..f2231ae 100644
--- a/src/utki/span.hpp
+++ b/src/utki/span.hpp
@@ -489,7 +489,7 @@ public:
 template <typename element_type>
 bool overlaps(const span<element_type>& s, typename span<element_type>::const_pointer p)
 {
-	return (&*s.begin()) <= p && p <= (&*std::prev(s.end()));
+	return s.data() <= p && p < s.data() + s.size();
 }
 
 template <typename lhs_element_type, typename rhs_element_type>
-- 
2.43.0


From 27eb70af5ae7a54dea5b434dadfa530e29b4863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 07/14] fix: signal::emit(): do not move by-value arguments
 into the first callback

---
 src/utki/signal.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/utki/signal.hpp b/src/utki/signal.hpp
index 33d8c0e..a62dc18 100644
--- a/src/utki/signal.hpp
+++ b/src/utki/signal.hpp
@@ -30,6 +30,7 @@ SOFTWARE.
 
 #include <functional>
 #include <list>
+#include <type_traits>
 
 #include "debug.hpp"
 
@@ -52,6 +53,13 @@ public:
 private:
 	std::list<callback_type> callbacks;
 
+	// copyable by-value arguments are passed on as lvalues, so that each callback gets its own copy
+	template <typename arg_type>
+	using emit_arg_type = std::conditional_t< //
+		std::is_copy_constructible_v<arg_type>,
+		std::remove_reference_t<arg_type>&,
+		arg_type&&>;
+
 public:
 	~signal()
 	{
@@ -93,7 +101,7 @@ public:
 	void emit(args_type... a)
 	{
 		for (const auto& c : this->callbacks) {
-			c(std::forward<args_type>(a)...);
+			c(static_cast<emit_arg_type<args_type>>(a)...);
 		}
 	}
 
-- 
2.43.0


From ed5d92171ac0fa27ec5d039a246d344b21e4fa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 08/14] fix: tree iterator at_level(): throws as documented
 instead of terminating

---
 src/utki/tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index 87dd9a0..d028e6e 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -474,7 +474,7 @@ private:
 			is_const,
 			const typename collection_type::value_type,
 			typename collection_type::value_type>&
-		at_level(size_t d) noexcept
+		at_level(size_t d)
 		{
 			return *this->iter_stack.at(d);
 		}
@@ -485,7 +485,7 @@ private:
 		 * @return Reference to the tree node this iterator points to on the requested tree level.
 		 * @throw std::out_of_range - in case the requested tree level is higher than the iterator depth.
 		 */
-		const typename collection_type::value_type& at_level(size_t d) const noexcept
+		const typename collection_type::value_type& at_level(size_t d) const
 		{
 			return *this->iter_stack.at(d);
 		}
-- 
2.43.0


From 4ea5064f9ceeed4165fecbc7fa293904fbc6001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:04 +0000
Subject: [PATCH 09/14] fix: make_indentation(): no 32-bit overflow of the
 indentation length

---
 src/utki/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index cd582c7..0614773 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -496,5 +496,5 @@ std::string utki::make_indentation(unsigned depth, unsigned size)
 		return std::string(depth, '\t');
 	}
 	// NOLINTNEXTLINE(modernize-return-braced-init-list)
-	return std::string(size_t(depth * size), ' ');
+	return std::string(size_t(depth) * size_t(size), ' ');
 }
-- 
2.43.0


From 2668cf7aa104ff45f4e2f3283a3889eee7df1717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:51 +0000
Subject: [PATCH 10/14] fix: word_wrap(): do not break a word after a word of
 exactly the line width

---
 src/utki/string.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index 0614773..fce8246 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -203,6 +203,16 @@ std::vector<std::string> utki::word_wrap(std::string_view str, unsigned width)
 				));
 				line_begin = i;
 				span_begin = line_begin;
+
+				auto next = std::next(i);
+				if (*i == ' ' && next != str.end() && *next != ' ' && *next != '\n') {
+					// the word fits exactly and the line is wrapped at a single space,
+					// do not start the new line from that space, otherwise the next word could be broken because of it
+					line_begin = next;
+					span_begin = line_begin;
+					word_ended = false;
+					continue;
+				}
 			}
 			word_ended = false;
 		}
-- 
2.43.0


From 6671f5f5bcb774bf64cbbafe67b3a0a0c99fc088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:18 +0000
Subject: [PATCH 11/14] fix: apply indentation when converting utki::exception
 to string

The base implementation of exception::to_string() ignored its indentation
argument, so that in the description of an exception stack the lines of
exceptions derived from utki::exception were not indented.
---
 src/utki/exception.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 3ea4512..88369b7 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -42,9 +42,9 @@ using namespace std::string_literals;
 
 using namespace utki;
 
-std::string exception::to_string(std::string_view) const
+std::string exception::to_string(std::string_view indentation) const
 {
-	return utki::to_string(static_cast<const std::exception&>(*this));
+	return utki::to_string(static_cast<const std::exception&>(*this), indentation);
 }
 
 std::string utki::current_exception_to_string(std::string_view indentation)
-- 
2.43.0


From d1afa8ba93e1e574f3de4b8797ec2a1d1f1e2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:44 +0000
Subject: [PATCH 12/14] fix: include message and causes to description of
 current exception

current_exception_to_string() printed only the type name of the currently
handled exception, even if it is a standard exception having a message, or
an utki::exception having its own description.
---
 src/utki/exception.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 88369b7..be419e0 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -65,6 +65,10 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 
 	try {
 		throw;
+	} catch (exception& e) {
+		return e.to_string(indentation);
+	} catch (std::exception& e) {
+		return to_string(e, indentation);
 	} catch (std::nested_exception& nested) {
 		try {
 			nested.rethrow_nested();
-- 
2.43.0


From 8eaa3159b56f911529df9dab9946b9d444bf1245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:44 +0000
Subject: [PATCH 13/14] fix: describe a stacked exception nested in a standard
 nested exception line by line

The causes were described by to_string(std::exception&), which for a stacked
exception yields the 'exception stack:' text with its own indentation instead
of one line per exception. Let current_exception_to_string() choose.
---
 src/utki/exception.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index be419e0..ab29a52 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -72,8 +72,6 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 	} catch (std::nested_exception& nested) {
 		try {
 			nested.rethrow_nested();
-		} catch (std::exception& e) {
-			ss << "\n" << to_string(e, indentation);
 		} catch (...) {
 			ss << "\n" << current_exception_to_string(indentation);
 		}
@@ -92,8 +90,6 @@ std::string utki::to_string(const std::exception& e, std::string_view indentatio
 
 	try {
 		std::rethrow_if_nested(e);
-	} catch (std::exception& nested) {
-		ss << "\n" << to_string(nested, indentation);
 	} catch (...) {
 		ss << "\n" << current_exception_to_string(indentation);
 	}
-- 
2.43.0


From 5afc3d4d37228b7b8fbc51bd4098ffc0d1f733db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:44 +0000
Subject: [PATCH 14/14] fix: do not terminate when describing a nested
 exception without a cause

An std::nested_exception which was created when no exception was being handled
has no nested exception, std::nested_exception::rethrow_nested() calls
std::terminate() in that case.
---
 src/utki/exception.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index ab29a52..c8d2e4e 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -70,6 +70,10 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 	} catch (std::exception& e) {
 		return to_string(e, indentation);
 	} catch (std::nested_exception& nested) {
+		if (!nested.nested_ptr()) {
+			// thrown when there was no exception being handled, so there is no cause
+			return ss.str();
+		}
 		try {
 			nested.rethrow_nested();
 		} catch (...) {
@@ -88,8 +92,13 @@ std::string utki::to_string(const std::exception& e, std::string_view indentatio
 	std::stringstream ss;
 	ss << indentation << demangle(typeid(e)) << ": " << e.what();
 
+	auto nested = dynamic_cast<const std::nested_exception*>(&e);
+	if (!nested || !nested->nested_ptr()) {
+		return ss.str();
+	}
+
 	try {
-		std::rethrow_if_nested(e);
+		nested->rethrow_nested();
 	} catch (...) {
 		ss << "\n" << current_exception_to_string(indentation);
 	}
-- 
2.43.0

