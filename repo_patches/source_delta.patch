From 8455169aac68219f84ce75a9f58d10cc245d7617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 01/32] fix: base64_decode() must not index the decode table
 with a negative char

Non-ASCII characters made the lookup read outside of the table.
---
 src/utki/base64.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index cd7e9c5..3587267 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -58,10 +58,10 @@ std::array<uint8_t, 3> base64_decode_quad(char a, char b, char c, char d)
 {
 	constexpr auto bits_per_char = 6;
 	uint32_t quad = //
-		(decode_table[a] << bits_per_char * 3) | //
-		(decode_table[b] << bits_per_char * 2) | //
-		(decode_table[c] << bits_per_char) | //
-		decode_table[d];
+		(decode_table[uint8_t(a)] << bits_per_char * 3) | //
+		(decode_table[uint8_t(b)] << bits_per_char * 2) | //
+		(decode_table[uint8_t(c)] << bits_per_char) | //
+		decode_table[uint8_t(d)];
 
 	return {
 		uint8_t((quad >> utki::byte_bits * 2) & utki::byte_mask), //
-- 
2.43.0


From aa1643256bf5a7cb5df58c12d4d300b992b63ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 02/32] fix: base64_decode() must reject text of a length which
 no encoding has

A single character in the last quad made it read past the end of the string,
incomplete padding silently dropped characters.
---
 src/utki/base64.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index 3587267..6a0adeb 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -81,7 +81,7 @@ std::vector<uint8_t> utki::base64_decode(std::string_view str)
 
 	// strip out padding
 	if (str.back() == '=') {
-		if (num_quads == 0) {
+		if (str.size() % 4 != 0) {
 			throw std::invalid_argument("base64_decode(): malformed base64 string: padding is not complete");
 		}
 		--num_quads;
@@ -91,6 +91,8 @@ std::vector<uint8_t> utki::base64_decode(std::string_view str)
 		if (str.back() == '=') {
 			str = str.substr(0, str.size() - 1);
 		}
+	} else if (str.size() % 4 == 1) {
+		throw std::invalid_argument("base64_decode(): malformed base64 string: incomplete last quad");
 	}
 
 	std::vector<uint8_t> ret;
-- 
2.43.0


From 6339937fb925465f0331284d39ffc5e9ef6271c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 03/32] fix: ends_with() must not depend on other occurrences
 of the suffix

In C++17 mode ends_with("abab", "ab") returned false.
---
 src/utki/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index 436da6a..0492c2d 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -849,7 +849,7 @@ inline bool ends_with(std::string_view str, std::string_view suffix)
 	if (suffix.size() > str.size()) {
 		return false;
 	}
-	return str.find(suffix) == (str.size() - suffix.size());
+	return str.compare(str.size() - suffix.size(), suffix.size(), suffix) == 0;
 #endif
 }
 
-- 
2.43.0


From dc9d342c1aa5b7372174f1962b2b441a95b5107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 04/32] fix: signal::emit() must pass by-value arguments to all
 callbacks

The argument was moved into the first callback, the others got a moved-from value.
---
 src/utki/signal.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utki/signal.hpp b/src/utki/signal.hpp
index 33d8c0e..00cc24e 100644
--- a/src/utki/signal.hpp
+++ b/src/utki/signal.hpp
@@ -30,6 +30,7 @@ SOFTWARE.
 
 #include <functional>
 #include <list>
+#include <type_traits>
 
 #include "debug.hpp"
 
@@ -52,6 +53,14 @@ public:
 private:
 	std::list<callback_type> callbacks;
 
+	// Arguments passed by value are given to each callback as a copy,
+	// because moving an argument to one callback would leave nothing for the next ones.
+	template <typename arg_type>
+	using pass_type = std::conditional_t<
+		!std::is_reference_v<arg_type> && std::is_copy_constructible_v<arg_type>,
+		const arg_type&,
+		arg_type&&>;
+
 public:
 	~signal()
 	{
@@ -93,7 +102,7 @@ public:
 	void emit(args_type... a)
 	{
 		for (const auto& c : this->callbacks) {
-			c(std::forward<args_type>(a)...);
+			c(static_cast<pass_type<args_type>>(a)...);
 		}
 	}
 
-- 
2.43.0


From b7b43f2349a3779d5f16ec09486f940dfc281978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 05/32] fix: tree iterator at_level() must be able to throw
 std::out_of_range

It is documented to throw, but was noexcept, so the program was terminated.
---
 src/utki/tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index 87dd9a0..d028e6e 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -474,7 +474,7 @@ private:
 			is_const,
 			const typename collection_type::value_type,
 			typename collection_type::value_type>&
-		at_level(size_t d) noexcept
+		at_level(size_t d)
 		{
 			return *this->iter_stack.at(d);
 		}
@@ -485,7 +485,7 @@ private:
 		 * @return Reference to the tree node this iterator points to on the requested tree level.
 		 * @throw std::out_of_range - in case the requested tree level is higher than the iterator depth.
 		 */
-		const typename collection_type::value_type& at_level(size_t d) const noexcept
+		const typename collection_type::value_type& at_level(size_t d) const
 		{
 			return *this->iter_stack.at(d);
 		}
-- 
2.43.0


From 85786a2a611ee9d59c4b92fe67df8e456668d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 06/32] fix: overlaps() must not report pointers to be within
 an empty span

---
 src/utki/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/span.hpp b/src/utki/span.hpp
index a467095..f2231ae 100644
--- a/src/utki/span.hpp
+++ b/src/utki/span.hpp
@@ -489,7 +489,7 @@ public:
 template <typename element_type>
 bool overlaps(const span<element_type>& s, typename span<element_type>::const_pointer p)
 {
-	return (&*s.begin()) <= p && p <= (&*std::prev(s.end()));
+	return s.data() <= p && p < s.data() + s.size();
 }
 
 template <typename lhs_element_type, typename rhs_element_type>
-- 
2.43.0


From 431b1a393836a45d299880c644814a9c80d38f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 07/32] fix: exception::to_string() must use the given
 indentation

---
 src/utki/exception.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 3ea4512..88369b7 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -42,9 +42,9 @@ using namespace std::string_literals;
 
 using namespace utki;
 
-std::string exception::to_string(std::string_view) const
+std::string exception::to_string(std::string_view indentation) const
 {
-	return utki::to_string(static_cast<const std::exception&>(*this));
+	return utki::to_string(static_cast<const std::exception&>(*this), indentation);
 }
 
 std::string utki::current_exception_to_string(std::string_view indentation)
-- 
2.43.0


From 0eaaacb8adc775d3fe49e4d938f9bb0f2dc9471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 08/32] fix: utf8_iterator must not shift by more than 31 bits
 on lead bytes 0xfe and 0xff

---
 src/utki/unicode.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 13488bf..2b524ca 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -92,7 +92,10 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		this->c |= (*this->p) & 0x3f; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 	}
 	// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-	this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
+	if (i < 7) { // malformed lead bytes 0xfe and 0xff carry no bits of the character
+		// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
+		this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
+	}
 
 	return *this;
 }
-- 
2.43.0


From d83cb8622a23ffe0df3987a88f10a3ad1b06fd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 09/32] fix: utf8_iterator must not read beyond the terminating
 zero

A multibyte sequence cut short by the terminating zero of a null-terminated string
made the iterator skip the zero and continue reading behind the string.
---
 src/utki/unicode.cpp | 4 ++--
 src/utki/unicode.hpp | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 2b524ca..d82e6dc 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -67,7 +67,7 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		return *this;
 	}
 
-	if (this->p == this->end) {
+	if (this->is_text_end()) {
 		this->c = 0;
 		return *this;
 	}
@@ -83,7 +83,7 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		 // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
 		 ++this->p)
 	{
-		if (this->p == this->end) {
+		if (this->is_text_end()) {
 			this->c = 0;
 			return *this;
 		}
diff --git a/src/utki/unicode.hpp b/src/utki/unicode.hpp
index 6c33989..387486b 100644
--- a/src/utki/unicode.hpp
+++ b/src/utki/unicode.hpp
@@ -45,6 +45,12 @@ class utf8_iterator
 	const uint8_t* p = nullptr;
 	const uint8_t* end = nullptr;
 
+	// null-terminated string has no end pointer, its end is where the terminating zero is
+	bool is_text_end() const noexcept
+	{
+		return this->p == this->end || (this->end == nullptr && *this->p == 0);
+	}
+
 public:
 	/**
 	 * @brief Create undefined iterator.
-- 
2.43.0


From ed33ae6ddf32700795dcf09d3314afc8dc573ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:57 +0000
Subject: [PATCH 10/32] fix: make_indentation() must not calculate the length
 in 32 bits

The number of spaces wrapped around for long indentations.
---
 src/utki/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index cd582c7..0614773 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -496,5 +496,5 @@ std::string utki::make_indentation(unsigned depth, unsigned size)
 		return std::string(depth, '\t');
 	}
 	// NOLINTNEXTLINE(modernize-return-braced-init-list)
-	return std::string(size_t(depth * size), ' ');
+	return std::string(size_t(depth) * size_t(size), ' ');
 }
-- 
2.43.0


From 6b2e5305f0bf9058a1ed15316d0b911f9bd84d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:11 +0000
Subject: [PATCH 11/32] fix: make_const_iterator() must compile for traversals
 of mutable trees

---
 src/utki/tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index d028e6e..fb7ef76 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -536,8 +536,8 @@ private:
 	{
 		iterator_internal<is_const> ret;
 
-		auto* list = &this->roots;
-		auto iter = this->roots.begin();
+		typename iterator_internal<is_const>::list_type* list = &this->roots;
+		typename iterator_internal<is_const>::iterator_type iter = list->begin();
 
 		for (auto i : index) {
 			ret.list_stack.push_back(list);
-- 
2.43.0


From ddec9419ff8ddf22b4841b98afda8463dc59cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:03 +0000
Subject: [PATCH 12/32] fix: linq queries must compile for collections of
 non-class and final types

---
 src/utki/linq.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/utki/linq.hpp b/src/utki/linq.hpp
index 735ce50..df6c91e 100644
--- a/src/utki/linq.hpp
+++ b/src/utki/linq.hpp
@@ -68,16 +68,23 @@ class linq_collection_aggregator
 
 	using value_type = typename utki::remove_const_reference_t<decltype(collection)>::value_type;
 
-	struct noncopyable_value_type : public value_type {
-		noncopyable_value_type(const noncopyable_value_type&) = delete;
-		noncopyable_value_type& operator=(const noncopyable_value_type&) = delete;
+	template <typename class_type>
+	struct noncopyable_class : public class_type {
+		noncopyable_class(const noncopyable_class&) = delete;
+		noncopyable_class& operator=(const noncopyable_class&) = delete;
 
-		noncopyable_value_type(noncopyable_value_type&&) = delete;
-		noncopyable_value_type& operator=(noncopyable_value_type&&) = delete;
+		noncopyable_class(noncopyable_class&&) = delete;
+		noncopyable_class& operator=(noncopyable_class&&) = delete;
 
-		~noncopyable_value_type() = default;
+		~noncopyable_class() = default;
 	};
 
+	// only non-final classes can be derived from
+	using noncopyable_value_type = typename std::conditional_t< //
+		std::is_class_v<value_type> && !std::is_final_v<value_type>,
+		noncopyable_class<value_type>,
+		value_type>;
+
 	linq_collection_aggregator(collection_type collection) :
 		collection(std::move(collection))
 	{}
-- 
2.43.0


From 2dc7a6b7143acea980a35c500438abaad3b3bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 13/32] fix: remove_const_reference did not remove volatile,
 unlike std::remove_cvref which it replaces

---
 src/utki/type_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/type_traits.hpp b/src/utki/type_traits.hpp
index dd58bfd..af243ed 100644
--- a/src/utki/type_traits.hpp
+++ b/src/utki/type_traits.hpp
@@ -174,7 +174,7 @@ static_assert(std::is_same_v<remove_const_pointer_t<const char*>, char>, "remove
  */
 template <typename in_type>
 struct remove_const_reference {
-	using type = typename std::remove_const_t<typename std::remove_reference_t<in_type>>;
+	using type = typename std::remove_cv_t<typename std::remove_reference_t<in_type>>;
 };
 
 template <typename in_type>
-- 
2.43.0


From f94fae46ec20fc5d2fa5135fee286d0602ceec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:18 +0000
Subject: [PATCH 14/32] fix: reverse iteration of enum_iterable did not
 compile, its iterator had no operator-- and operator==

---
 src/utki/enum_iterable.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/utki/enum_iterable.hpp b/src/utki/enum_iterable.hpp
index 8341f35..76e43d0 100644
--- a/src/utki/enum_iterable.hpp
+++ b/src/utki/enum_iterable.hpp
@@ -69,6 +69,11 @@ public:
 			return this->e != i.e;
 		}
 
+		constexpr bool operator==(const iterator& i) const noexcept
+		{
+			return this->e == i.e;
+		}
+
 		constexpr value_type operator*() const noexcept
 		{
 			return this->e;
@@ -79,11 +84,18 @@ public:
 			this->e = enum_type(std::underlying_type_t<enum_type>(this->e) + 1);
 			return *this;
 		}
+
+		constexpr iterator& operator--() noexcept
+		{
+			this->e = enum_type(std::underlying_type_t<enum_type>(this->e) - 1);
+			return *this;
+		}
 	};
 
 	using const_iterator = iterator;
 
 	using reverse_iterator = std::reverse_iterator<iterator>;
+	using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
 	constexpr size_t size() const noexcept
 	{
-- 
2.43.0


From 4c9e6cf390535f42efc74b654a17058f7935298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:18 +0000
Subject: [PATCH 15/32] fix: tree traversal operator[] did not compile for
 non-const traversal objects of constant trees

---
 src/utki/tree.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index fb7ef76..4382180 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -670,7 +670,7 @@ public:
 	 * @param index - index of the tree element.
 	 * @return reference to the tree elemenet referred by index.
 	 */
-	typename collection_type::value_type& operator[](utki::span<const size_type> index)
+	reference operator[](utki::span<const size_type> index)
 	{
 		ASSERT(this->is_valid(index))
 		// TODO: rewrite without creating iterator, for more performance
@@ -694,7 +694,7 @@ public:
 	 * @param index - index of the tree element.
 	 * @return reference to the tree elemenet referred by index.
 	 */
-	typename collection_type::value_type& operator[](const std::vector<size_t>& index)
+	reference operator[](const std::vector<size_t>& index)
 	{
 		return this->operator[](utki::make_span(index));
 	}
@@ -714,7 +714,7 @@ public:
 	 * @param index - index of the tree element.
 	 * @return reference to the tree elemenet referred by index.
 	 */
-	typename collection_type::value_type& operator[](std::initializer_list<size_t> index)
+	reference operator[](std::initializer_list<size_t> index)
 	{
 		return this->operator[](std::vector<size_t>(index));
 	}
-- 
2.43.0


From 96fa1a2b839efcaa4777ac6fba15d73d86dbbed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:39 +0000
Subject: [PATCH 16/32] fix: second call of stacked_exception::what()
 invalidated the string returned by the first one, and concurrent calls raced

---
 src/utki/exception.hpp | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/utki/exception.hpp b/src/utki/exception.hpp
index 13c82d7..2ac6620 100644
--- a/src/utki/exception.hpp
+++ b/src/utki/exception.hpp
@@ -29,10 +29,12 @@ SOFTWARE.
 #pragma once
 
 #include <exception>
+#include <mutex>
 #include <string>
 #include <string_view>
 
 #include "debug.hpp"
+#include "spin_lock.hpp"
 #include "string.hpp"
 
 namespace utki {
@@ -84,7 +86,36 @@ class stacked_exception : public exception
 	std::nested_exception nested;
 	exception_type nesting;
 
-	mutable std::string description;
+	// The description is made once, the pointer returned by what() has to remain valid
+	// as long as the exception object exists, also when what() is called again, possibly by another thread.
+	class lazy_description
+	{
+		spin_lock lock;
+		std::string text;
+
+	public:
+		lazy_description() = default;
+
+		// a copy of the exception makes its own description
+		lazy_description(const lazy_description&) {}
+
+		lazy_description& operator=(const lazy_description&)
+		{
+			this->text.clear();
+			return *this;
+		}
+
+		const char* get(const stacked_exception& e)
+		{
+			std::lock_guard<spin_lock> guard(this->lock);
+			if (this->text.empty()) {
+				this->text = utki::cat(std::string_view("exception stack:\n"), e.to_string(std::string_view("- ")));
+			}
+			return this->text.c_str();
+		}
+	};
+
+	mutable lazy_description description;
 
 	stacked_exception(exception_type nesting) :
 		nesting(std::move(nesting))
@@ -97,9 +128,7 @@ public:
 	const char* what() const noexcept override
 	{
 		try {
-			this->description =
-				utki::cat(std::string_view("exception stack:\n"), this->to_string(std::string_view("- ")));
-			return this->description.c_str();
+			return this->description.get(*this);
 		} catch (std::bad_alloc&) {
 			return "std::bad_alloc";
 		} catch (...) {
-- 
2.43.0


From 610f4c47c5f4a81d422df55cd160e29bd36ee6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:20 +0000
Subject: [PATCH 17/32] fix: tree traversal is_valid() and operator[] did not
 compile for trees based on containers without operator[], e.g. std::list

---
 src/utki/tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index 4382180..b5b7cd3 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -632,7 +632,7 @@ public:
 			if (i >= li->size()) {
 				return false;
 			}
-			li = &(*li)[i].children;
+			li = &std::next(li->begin(), i)->children;
 		}
 		return true;
 	}
-- 
2.43.0


From f72fb6b78e8e29a6170e8ce4e06b65dd2d5cfe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:20 +0000
Subject: [PATCH 18/32] fix: utki::to_string(exception) did not compile for
 exceptions of types derived from std::exception

---
 src/utki/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index 0492c2d..b6fe61e 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -628,7 +628,9 @@ public:
  * @param conversion_base - Integer base to use for the conversion.
  * @return String representing the converted integer value.
  */
-template <typename number_type>
+template <
+	typename number_type, //
+	std::enable_if_t<!std::is_class_v<number_type>, bool> = true>
 std::string to_string(
 	number_type value, //
 	integer_base conversion_base = integer_base::dec
-- 
2.43.0


From 5ff4aeef4ff0dfb61765b5edd0f4dfa7bd973059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:54 +0000
Subject: [PATCH 19/32] fix: assigning a tree from its own sub-tree used freed
 memory, assigning a sub-tree from its own parent tree gave wrong contents

---
 src/utki/tree.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index b5b7cd3..0594080 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -73,10 +73,31 @@ public:
 	container_type children;
 
 	tree(const tree&) = default;
-	tree& operator=(const tree&) = default;
+
+	tree& operator=(const tree& t)
+	{
+		// the assigned tree can be a sub-tree of this tree or the other way around, so make a copy of it first
+		return this->operator=(tree(t));
+	}
 
 	tree(tree&&) = default;
-	tree& operator=(tree&&) = default;
+
+	tree& operator=(tree&& t) noexcept(
+		std::is_nothrow_move_constructible_v<element_type> && //
+		std::is_nothrow_move_assignable_v<element_type> && //
+		std::is_nothrow_move_constructible_v<container_type> && //
+		std::is_nothrow_move_assignable_v<container_type>
+	)
+	{
+		// the assigned tree can be a sub-tree of this tree, so take its contents out before destroying the children
+		auto new_value = std::move(t.value);
+		auto new_children = std::move(t.children);
+
+		this->value = std::move(new_value);
+		this->children = std::move(new_children);
+
+		return *this;
+	}
 
 	~tree() = default;
 
-- 
2.43.0


From 5e8452069344d6dbbfe368499b212f2821e49006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 20/32] fix: trimming of char16_t, char32_t and char8_t strings
 threw std::bad_cast

---
 src/utki/string.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index b6fe61e..a3aa2fb 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -683,6 +683,19 @@ std::string to_string(
 	);
 }
 
+namespace string_internal {
+template <typename char_type>
+bool is_space(char_type c)
+{
+	if constexpr (std::is_same_v<char_type, char> || std::is_same_v<char_type, wchar_t>) {
+		return std::isspace(c, std::locale::classic());
+	} else {
+		// std::isspace() throws std::bad_cast for other character types, since there is no std::ctype facet for those
+		return c <= 0x7f && std::isspace(char(c), std::locale::classic());
+	}
+}
+} // namespace string_internal
+
 /**
  * @brief Trim whitespaces from front of the string.
  * @tparam element_type - string element type.
@@ -699,7 +712,7 @@ std::basic_string_view<element_type> trim_front(std::basic_string_view<element_t
 				s.begin(),
 				s.end(),
 				[](auto c) {
-					return !std::isspace(c, std::locale::classic());
+					return !string_internal::is_space(c);
 				}
 			)
 		)
@@ -744,7 +757,7 @@ std::basic_string_view<element_type> trim_back(std::basic_string_view<element_ty
 				s.rbegin(),
 				s.rend(),
 				[](auto c) {
-					return !std::isspace(c, std::locale::classic());
+					return !string_internal::is_space(c);
 				}
 			).base()
 		)
-- 
2.43.0


From 3f0c5d1d515c6a7e0fc8858baf34c31a3db9e938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 21/32] fix: linq order_by() did not compile for temporary
 collections without random access

---
 src/utki/linq.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utki/linq.hpp b/src/utki/linq.hpp
index df6c91e..194f494 100644
--- a/src/utki/linq.hpp
+++ b/src/utki/linq.hpp
@@ -207,12 +207,21 @@ public:
 			return func(a) < func(b);
 		};
 
-		if constexpr (std::is_rvalue_reference_v<collection_type>) {
+		using iterator_category =
+			typename std::iterator_traits<decltype(this->collection.begin())>::iterator_category;
+
+		if constexpr (
+			std::is_rvalue_reference_v<collection_type> &&
+			std::is_base_of_v<std::random_access_iterator_tag, iterator_category>
+		)
+		{
 			std::sort(this->collection.begin(), this->collection.end(), comparer);
 			return linq_collection_aggregator<decltype(this->collection)&&>(std::move(this->collection));
 		} else {
 			std::vector<value_type> ret;
-			std::copy(this->collection.begin(), this->collection.end(), std::back_inserter(ret));
+			for (auto&& v : this->collection) {
+				ret.push_back(std::move(v));
+			}
 
 			std::sort(ret.begin(), ret.end(), comparer);
 			return linq_collection_aggregator<decltype(ret)&&>(std::move(ret));
-- 
2.43.0


From 671a493dca79ca03624be8d22d4a0ba9186f7c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 22/32] fix: linq select() did not compile for functions
 returning references

---
 src/utki/linq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/linq.hpp b/src/utki/linq.hpp
index 194f494..7a09216 100644
--- a/src/utki/linq.hpp
+++ b/src/utki/linq.hpp
@@ -108,10 +108,10 @@ public:
 			"passed in function must have one argument or two arguments with the second argument of type size_t"
 		);
 
-		using func_return_type = typename std::conditional_t<
+		using func_return_type = utki::remove_const_reference_t<typename std::conditional_t<
 			func_has_one_arg,
 			type_or_void_t<std::invoke_result<func_type, func_arg_type>>,
-			type_or_void_t<std::invoke_result<func_type, func_arg_type, size_t>>>;
+			type_or_void_t<std::invoke_result<func_type, func_arg_type, size_t>>>>;
 
 		std::vector<func_return_type> ret;
 		ret.reserve(this->collection.size());
-- 
2.43.0


From d30862750c3c71307c10910a04bc24d80367ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:45 +0000
Subject: [PATCH 23/32] fix: linq moved elements out of the memory referred to
 by a span

---
 src/utki/linq.hpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/utki/linq.hpp b/src/utki/linq.hpp
index 7a09216..fcf0115 100644
--- a/src/utki/linq.hpp
+++ b/src/utki/linq.hpp
@@ -66,7 +66,26 @@ class linq_collection_aggregator
 		// NOLINTNEXTLINE(cppcoreguidelines-avoid-const-or-ref-data-members)
 		collection;
 
-	using value_type = typename utki::remove_const_reference_t<decltype(collection)>::value_type;
+	using value_type =
+		typename std::remove_cv_t<typename utki::remove_const_reference_t<decltype(collection)>::value_type>;
+
+	// A collection which owns its elements does not give access to them as non-const when it is const itself.
+	// Elements of a view, like span, belong to someone else.
+	template <typename any_collection_type>
+	using element_type = decltype(*std::declval<any_collection_type&>().begin());
+	using bare_collection_type = utki::remove_const_reference_t<decltype(collection)>;
+	constexpr static bool owns_elements =
+		!std::is_same_v<element_type<bare_collection_type>, element_type<const bare_collection_type>>;
+
+	template <typename passed_type>
+	static decltype(auto) pass(passed_type& e)
+	{
+		if constexpr (owns_elements) {
+			return std::move(e);
+		} else {
+			return std::move(static_cast<const passed_type&>(e));
+		}
+	}
 
 	template <typename class_type>
 	struct noncopyable_class : public class_type {
@@ -118,12 +137,12 @@ public:
 
 		if constexpr (func_has_one_arg) {
 			for (auto&& e : this->collection) {
-				ret.push_back(func(std::move(e)));
+				ret.push_back(func(pass(e)));
 			}
 		} else { // two arguments
 			size_t i = 0;
 			for (auto&& e : this->collection) {
-				ret.push_back(func(std::move(e), i));
+				ret.push_back(func(pass(e), i));
 				++i;
 			}
 		}
@@ -153,7 +172,7 @@ public:
 		std::map<func_return_type, std::vector<value_type>> ret;
 
 		for (auto&& v : this->collection) {
-			ret[func(v)].push_back(std::move(v));
+			ret[func(v)].push_back(pass(v));
 		}
 
 		return linq_collection_aggregator<decltype(ret)&&>(std::move(ret));
@@ -211,7 +230,7 @@ public:
 			typename std::iterator_traits<decltype(this->collection.begin())>::iterator_category;
 
 		if constexpr (
-			std::is_rvalue_reference_v<collection_type> &&
+			std::is_rvalue_reference_v<collection_type> && owns_elements &&
 			std::is_base_of_v<std::random_access_iterator_tag, iterator_category>
 		)
 		{
@@ -220,7 +239,7 @@ public:
 		} else {
 			std::vector<value_type> ret;
 			for (auto&& v : this->collection) {
-				ret.push_back(std::move(v));
+				ret.push_back(pass(v));
 			}
 
 			std::sort(ret.begin(), ret.end(), comparer);
-- 
2.43.0


From de565f9bcbcc73ecde04921771b82ca6a862586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:39 +0000
Subject: [PATCH 24/32] fix: linq where() moved elements of temporary
 collections into functions taking them by value

---
 src/utki/linq.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/utki/linq.hpp b/src/utki/linq.hpp
index fcf0115..86a2f88 100644
--- a/src/utki/linq.hpp
+++ b/src/utki/linq.hpp
@@ -195,12 +195,11 @@ public:
 
 		typename utki::remove_const_reference<decltype(this->collection)>::type ret;
 
-		std::copy_if(
-			std::make_move_iterator(this->collection.begin()),
-			std::make_move_iterator(this->collection.end()),
-			std::inserter(ret, ret.end()),
-			func
-		);
+		for (auto&& e : this->collection) {
+			if (func(static_cast<const value_type&>(e))) {
+				ret.insert(ret.end(), pass(e));
+			}
+		}
 
 		return linq_collection_aggregator<decltype(ret)&&>(std::move(ret));
 	}
-- 
2.43.0


From 62e4be7ad89109e4f607b7feb6b7345dc9535a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:09 +0000
Subject: [PATCH 25/32] fix: sort() gave wrong contents for std::vector<bool>
 in C++17

---
 src/utki/sort.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utki/sort.hpp b/src/utki/sort.hpp
index 0aeec12..a8da069 100644
--- a/src/utki/sort.hpp
+++ b/src/utki/sort.hpp
@@ -61,7 +61,8 @@ constexpr auto distance(random_iter_type first, random_iter_type last)
 template <class forward_iter_1_type, class forward_iter_2_type>
 constexpr void iter_swap(forward_iter_1_type a, forward_iter_2_type b)
 {
-	auto temp = std::move(*a);
+	// dereferencing an iterator may give a proxy object, as for std::vector<bool>, so do not use auto
+	typename std::iterator_traits<forward_iter_1_type>::value_type temp = std::move(*a);
 	*a = std::move(*b);
 	*b = std::move(temp);
 }
@@ -101,7 +102,8 @@ constexpr void quick_sort(random_iter_type first, random_iter_type last, compara
 	if (n <= 1) {
 		return;
 	}
-	auto const pivot = *utki::sort_internal::next(first, n / 2);
+	typename std::iterator_traits<random_iter_type>::value_type const pivot =
+		*utki::sort_internal::next(first, n / 2);
 	auto const middle1 = utki::sort_internal::partition(first, last, [=](auto const& elem) {
 		return cmp(elem, pivot);
 	});
-- 
2.43.0


From 84b4d8678a7e9158ffe7c03cc6e9fd27118a7335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:46 +0000
Subject: [PATCH 26/32] fix: make_shared_from() and make_weak_from() did not
 compile for constant objects derived from std::enable_shared_from_this

---
 src/utki/shared.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utki/shared.hpp b/src/utki/shared.hpp
index 4130232..1f38273 100644
--- a/src/utki/shared.hpp
+++ b/src/utki/shared.hpp
@@ -96,13 +96,13 @@ utki::shared_ref<object_type> make_shared_from(object_type& o)
 {
 	static_assert(
 		std::is_base_of_v<shared, object_type> ||
-			std::is_base_of_v<std::enable_shared_from_this<object_type>, object_type>,
+			std::is_base_of_v<std::enable_shared_from_this<std::remove_const_t<object_type>>, object_type>,
 		"make_shared_from(): argument must be derived from utki::shared or std::enable_shared_from_this"
 	);
 
 	if constexpr (std::is_base_of_v<shared, object_type>) {
 		return utki::shared_ref<object_type>(std::dynamic_pointer_cast<object_type>(o.shared_from_this()));
-	} else if constexpr (std::is_base_of_v<std::enable_shared_from_this<object_type>, object_type>) {
+	} else if constexpr (std::is_base_of_v<std::enable_shared_from_this<std::remove_const_t<object_type>>, object_type>) {
 		return utki::shared_ref<object_type>(o.shared_from_this());
 	}
 }
@@ -120,13 +120,13 @@ std::weak_ptr<object_type> make_weak_from(object_type& o)
 {
 	static_assert(
 		std::is_base_of_v<shared, object_type> ||
-			std::is_base_of_v<std::enable_shared_from_this<object_type>, object_type>,
+			std::is_base_of_v<std::enable_shared_from_this<std::remove_const_t<object_type>>, object_type>,
 		"make_weak_from(): argument must be derived from utki::shared or std::enable_shared_from_this"
 	);
 
 	if constexpr (std::is_base_of_v<shared, object_type>) {
 		return utki::make_weak(utki::make_shared_from(o));
-	} else if constexpr (std::is_base_of_v<std::enable_shared_from_this<object_type>, object_type>) {
+	} else if constexpr (std::is_base_of_v<std::enable_shared_from_this<std::remove_const_t<object_type>>, object_type>) {
 		return o.weak_from_this();
 	}
 }
-- 
2.43.0


From c16d13436bc7ae389398688d45957aec0a8ce928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 27/32] fix: describing an exception which is a nested
 exception with nothing nested terminated the program

---
 src/utki/exception.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 88369b7..21b19b8 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -66,6 +66,9 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 	try {
 		throw;
 	} catch (std::nested_exception& nested) {
+		if (!nested.nested_ptr()) {
+			return ss.str(); // created when no exception was being handled, nothing is nested
+		}
 		try {
 			nested.rethrow_nested();
 		} catch (std::exception& e) {
@@ -86,6 +89,10 @@ std::string utki::to_string(const std::exception& e, std::string_view indentatio
 	std::stringstream ss;
 	ss << indentation << demangle(typeid(e)) << ": " << e.what();
 
+	if (auto nested = dynamic_cast<const std::nested_exception*>(&e); nested && !nested->nested_ptr()) {
+		return ss.str(); // created when no exception was being handled, nothing is nested
+	}
+
 	try {
 		std::rethrow_if_nested(e);
 	} catch (std::exception& nested) {
-- 
2.43.0


From f553c06a104be78ef2d98f7d2921e8fb1892c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 28/32] fix: the message of a failed assertion was lost when
 its source location has no file name

---
 src/utki/debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/debug.cpp b/src/utki/debug.cpp
index 6c2bd78..544e2cb 100644
--- a/src/utki/debug.cpp
+++ b/src/utki/debug.cpp
@@ -65,7 +65,7 @@ void utki::assert_always(
 	}
 
 	std::stringstream ss;
-	ss << source_location.file_name() << ":" << source_location.line() << ": ";
+	ss << (source_location.file_name() ? source_location.file_name() : "unknown") << ":" << source_location.line() << ": ";
 
 	if (is_terminal_cerr()) {
 #if CFG_COMPILER == CFG_COMPILER_MSVC && CFG_COMPILER_MSVC_TOOLS_V <= 141
-- 
2.43.0


From dffa0e3299174befae99aee6dd652aabb7b9dd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:45 +0000
Subject: [PATCH 29/32] fix: a zip view did not notice that its collections had
 changed their sizes since it was created

---
 src/utki/views.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/utki/views.hpp b/src/utki/views.hpp
index 4ddd943..3474a16 100644
--- a/src/utki/views.hpp
+++ b/src/utki/views.hpp
@@ -122,11 +122,8 @@ template <typename... collection_type>
 struct zip_view {
 	std::tuple<collection_type&...> collection;
 
-	size_t min_size;
-
 	zip_view(collection_type&... collection) :
-		collection(std::tuple<collection_type&...>(collection...)),
-		min_size(std::min({collection.size()...}))
+		collection(std::tuple<collection_type&...>(collection...))
 	{}
 
 	class iterator
@@ -190,8 +187,10 @@ struct zip_view {
 	auto end()
 	{
 		return iterator(std::apply(
-			[this](auto&... c) {
-				return std::make_tuple(utki::next(c.begin(), this->min_size)...);
+			[](auto&... c) {
+				// sizes of the collections may have changed since the view was created
+				size_t min_size = std::min({c.size()...});
+				return std::make_tuple(utki::next(c.begin(), min_size)...);
 			},
 			this->collection
 		));
-- 
2.43.0


From d5d4ff80e24c2a8a4eac4a1f9e6a865414ff3312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:48 +0000
Subject: [PATCH 30/32] fix: sorting some orders of elements recursed once per
 two elements in C++17, exhausting the stack

---
 src/utki/sort.hpp | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/utki/sort.hpp b/src/utki/sort.hpp
index a8da069..4ba91e0 100644
--- a/src/utki/sort.hpp
+++ b/src/utki/sort.hpp
@@ -98,20 +98,29 @@ constexpr forward_iter_type partition(forward_iter_type first, forward_iter_type
 template <class random_iter_type, class comparator_type = std::less<>>
 constexpr void quick_sort(random_iter_type first, random_iter_type last, comparator_type cmp = comparator_type{})
 {
-	auto const n = utki::sort_internal::distance(first, last);
-	if (n <= 1) {
-		return;
+	for (;;) {
+		auto const n = utki::sort_internal::distance(first, last);
+		if (n <= 1) {
+			return;
+		}
+		typename std::iterator_traits<random_iter_type>::value_type const pivot =
+			*utki::sort_internal::next(first, n / 2);
+		auto const middle1 = utki::sort_internal::partition(first, last, [=](auto const& elem) {
+			return cmp(elem, pivot);
+		});
+		auto const middle2 = utki::sort_internal::partition(middle1, last, [=](auto const& elem) {
+			return !cmp(pivot, elem);
+		});
+
+		// only recurse into the shorter part, so that the recursion depth is logarithmic for any order of elements
+		if (utki::sort_internal::distance(first, middle1) < utki::sort_internal::distance(middle2, last)) {
+			quick_sort(first, middle1, cmp); // assert(std::is_sorted(first, middle1, cmp));
+			first = middle2;
+		} else {
+			quick_sort(middle2, last, cmp); // assert(std::is_sorted(middle2, last, cmp));
+			last = middle1;
+		}
 	}
-	typename std::iterator_traits<random_iter_type>::value_type const pivot =
-		*utki::sort_internal::next(first, n / 2);
-	auto const middle1 = utki::sort_internal::partition(first, last, [=](auto const& elem) {
-		return cmp(elem, pivot);
-	});
-	auto const middle2 = utki::sort_internal::partition(middle1, last, [=](auto const& elem) {
-		return !cmp(pivot, elem);
-	});
-	quick_sort(first, middle1, cmp); // assert(std::is_sorted(first, middle1, cmp));
-	quick_sort(middle2, last, cmp); // assert(std::is_sorted(middle2, last, cmp));
 }
 
 } // namespace sort_internal
-- 
2.43.0


From c1236b320b9e1f6f0faf2c60e4136da0f43546e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:47 +0000
Subject: [PATCH 31/32] fix: from_chars() with hexadecimal format read the text
 as a decimal number

---
 src/utki/string.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index 0614773..1e5619e 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -253,13 +253,26 @@ fast_float::chars_format to_fast_float_format(utki::chars_format f)
 			return fast_float::scientific;
 		case utki::chars_format::fixed:
 			return fast_float::fixed;
-		case utki::chars_format::hex:
-			return fast_float::hex;
 		default:
 		case utki::chars_format::general:
 			return fast_float::general;
 	}
 }
+
+template <typename number_type>
+std::from_chars_result from_chars_hex( //
+	const char* first,
+	[[maybe_unused]] const char* last,
+	[[maybe_unused]] number_type& value
+) noexcept
+{
+	// fast_float does not support hexadecimal format
+#ifdef __cpp_lib_to_chars
+	return std::from_chars(first, last, value, std::chars_format::hex);
+#else
+	return {first, std::errc::invalid_argument};
+#endif
+}
 } // namespace
 
 std::from_chars_result utki::from_chars( //
@@ -269,6 +282,10 @@ std::from_chars_result utki::from_chars( //
 	chars_format fmt
 ) noexcept
 {
+	if (fmt == chars_format::hex) {
+		return from_chars_hex(first, last, value);
+	}
+
 	// NOLINTNEXTLINE(cppcoreguidelines-pro-type-member-init)
 	std::from_chars_result ret;
 
@@ -287,6 +304,10 @@ std::from_chars_result utki::from_chars( //
 	chars_format fmt
 ) noexcept
 {
+	if (fmt == chars_format::hex) {
+		return from_chars_hex(first, last, value);
+	}
+
 	// NOLINTNEXTLINE(cppcoreguidelines-pro-type-member-init)
 	std::from_chars_result ret;
 
-- 
2.43.0


From a8cdc06b472b557326ff64f8ffb2da3208181452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:57 +0000
Subject: [PATCH 32/32] fix: tree traversal made an iterator which points
 nowhere from an empty index instead of reporting it out of range

---
 src/utki/tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index 0594080..62c274b 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -555,6 +555,10 @@ private:
 	template <bool is_const>
 	iterator_internal<is_const> make_iterator_internal(utki::span<const size_type> index) const
 	{
+		if (index.empty()) {
+			throw std::out_of_range("given index is empty, it does not point to any node of the tree");
+		}
+
 		iterator_internal<is_const> ret;
 
 		typename iterator_internal<is_const>::list_type* list = &this->roots;
-- 
2.43.0

