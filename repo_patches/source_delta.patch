From f775847111306775dec81c1aa00cc29a94d301df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 01/90] fix: Array slices may extend to the end of the body, or
 be empty

---
 include/array.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index f7ea4a9..f0a50aa 100644
--- a/include/array.h
+++ b/include/array.h
@@ -444,8 +444,7 @@ public:
 	ArrayR(Body* body, Index offs, Index len)
 			: body(body), offset(offs), num_elements(len)
 			{
-				assert(offs < body->length());
-				assert(offs+len < body->length());
+				assert(offs+len <= (body ? body->length() : 0));
 			}
 protected:
 	bool		isStatic() const;
-- 
2.43.0


From 01722d81397908872e9ee3cbcf11482a7fa4dd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 02/90] fix: Array insert, append and remove must allow for the
 offset of an unshared slice

---
 include/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/array.h b/include/array.h
index f0a50aa..e18983c 100644
--- a/include/array.h
+++ b/include/array.h
@@ -210,7 +210,7 @@ public:
 				}
 
 				Unshare();
-				body->remove(at, len);
+				body->remove(offset+at, len);
 				num_elements -= len;
 				return *this;
 			}
@@ -231,7 +231,7 @@ public:
 	ArrayR&		operator+=(const Element& addend)
 			{
 				Unshare(1);
-				body->insert(num_elements, &addend, 1);
+				body->insert(offset+num_elements, &addend, 1);
 				num_elements++;
 				return *this;
 			}
@@ -269,7 +269,7 @@ public:
 				}
 
 				Unshare(addend.length());
-				body->insert(pos, addend.asElements(), addend.length());
+				body->insert(offset+pos, addend.asElements(), addend.length());
 				num_elements += addend.length();
 				return *this;
 			}
-- 
2.43.0


From b8d903f30db782e9bcf312822a74f65067433f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 03/90] fix: Array::delete_if must delete the selected elements

---
 include/array.h | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/include/array.h b/include/array.h
index e18983c..ba492da 100644
--- a/include/array.h
+++ b/include/array.h
@@ -296,24 +296,19 @@ public:
 			{
 				if (num_elements == 0)
 					return *this;				// body may be null
-				const Element*	dp = body->data()+offset;	// Start of our slice
-				const Element*	bp = dp;			// Output pointer
-				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* sp = dp; sp < ep; sp++, bp++)
-					if (condition(*sp))
-					{
-						if (isShared())
-						{
-							Unshare();	// This invalidates the pointers; reset them
-							dp = body->data() + (dp-sp);
-							bp = body->data() + (bp-sp);
-							ep = body->data() + (ep-sp);
-							// sp = body->data();	// Unnecessary, we won't Unshare twice
-						}
-						bp--;	// Skip this element in the output
+				Index		kept = 0;			// Elements retained so far
+				for (Index i = 0; i < num_elements; i++)
+				{
+					if (condition(body->data()[offset+i]))
+						continue;		// Skip this element in the output
+					if (kept < i)
+					{		// Move a retained element down over the deleted ones
+						Unshare();		// This may reset our offset
+						body->data()[offset+kept] = body->data()[offset+i];
 					}
-				if (bp < dp)
-					num_elements -= (dp-bp);
+					kept++;
+				}
+				num_elements = kept;
 				return *this;
 			}
 
-- 
2.43.0


From 69ff8810faa85baecb23bd1cc9ebf8b463a2c817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 04/90] fix: Array::rfind must examine the first element

---
 include/array.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/array.h b/include/array.h
index ba492da..f33364a 100644
--- a/include/array.h
+++ b/include/array.h
@@ -150,8 +150,8 @@ public:
 			{
 				const Element*	dp = body->data()+offset;	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
-					if (*bp == e)
+				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp > dp; )
+					if (*--bp == e)
 						return bp-dp;
 				return -1;				// Not found
 			}
@@ -369,8 +369,8 @@ public:
 			{
 				const Element*	dp = body->data()+offset;	// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
-				for (const Element* bp = dp + (before < 0 ? num_elements : before)-1; bp > dp; bp--)
-					if (match(*bp))
+				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp > dp; )
+					if (match(*--bp))
 						return bp-dp;
 				return -1;				// Not found
 			}
-- 
2.43.0


From 713242b8052ebe889f5c6b0e3f0449b9d3df5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 05/90] fix: Array::bsearch must examine the first element and
 not the one past the end

---
 include/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index f33364a..c7c054c 100644
--- a/include/array.h
+++ b/include/array.h
@@ -412,12 +412,12 @@ public:
 				Index		r = num_elements;
 				while (r > l)
 				{
-					Index	m = l+(r-l+1)/2;	// Care with unsigned overflow
+					Index	m = l+(r-l)/2;		// Care with unsigned overflow
 					int	c = comparator(dp[m]);
 					if (c == 0)
 						return m;
 					if (c > 0)
-						r = m-1;		// The middle element was too great
+						r = m;			// The middle element was too great
 					else
 						l = m+1;		// The middle element was too small
 				}
-- 
2.43.0


From bb4b443cd68261f77e010f6ea7b4f128801084af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 06/90] fix: Array::compare must order a longer array after its
 prefix

---
 include/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array.h b/include/array.h
index c7c054c..7b6a3de 100644
--- a/include/array.h
+++ b/include/array.h
@@ -99,6 +99,8 @@ public:
 				}
 				if (i < comparand.length())
 					return -1;
+				if (i < num_elements)
+					return 1;
 				return 0;
 			}
 	inline bool	operator==(const ArrayR& comparand) const {
-- 
2.43.0


From 0f35f1a2234e747cb7d163bbf3e857876657d7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 07/90] fix: Array searches and iterators must accept an empty
 array having no body

---
 include/array.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/array.h b/include/array.h
index 7b6a3de..df9d5e7 100644
--- a/include/array.h
+++ b/include/array.h
@@ -141,7 +141,7 @@ public:
 	// Linear search for an element
 	int		find(const Element& e, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (*bp == e)
@@ -150,7 +150,7 @@ public:
 			}
 	int		rfind(const Element& e, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp > dp; )
 					if (*--bp == e)
@@ -284,7 +284,7 @@ public:
 				if (num_elements == 0)
 					return *this;				// body may be null
 				Unshare();
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				while (ep-dp > 1)				// We haven't reached the middle yet
 				{
@@ -317,7 +317,7 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	const Self&	each(std::function<void(const Element& e)> operation) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					operation(*bp);
@@ -326,7 +326,7 @@ public:
 			}
 	bool		all(std::function<bool(const Element& e)> condition) const	// Do all elements satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (!condition(*bp))
@@ -335,7 +335,7 @@ public:
 			}
 	bool		any(std::function<bool(const Element& e)> condition) const	// Does any element satisfy the condition?
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -344,7 +344,7 @@ public:
 			}
 	bool		one(std::function<bool(const Element& e)> condition) const	// Exactly one element satisfies the condition
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				bool		found = false;
 				for (const Element* bp = dp; bp < ep; bp++)
@@ -360,7 +360,7 @@ public:
 	// Linear search for an element using a match function
 	int		find(std::function<bool(const Element& e)> match, int after = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (match(*bp))
@@ -369,7 +369,7 @@ public:
 			}
 	int		rfind(std::function<bool(const Element& e)> match, int before = -1) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp > dp; )
 					if (match(*--bp))
@@ -381,7 +381,7 @@ public:
 	Self		select(std::function<bool(const Element& e)> condition) const
 			{
 				Self	selected;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -392,7 +392,7 @@ public:
 			{
 				Result		output((E2*)0, 0, num_elements);// Preallocate correct size
 
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					output.append(map1(*bp));
@@ -401,7 +401,7 @@ public:
 	template<typename J> J	inject(const J& start, std::function<J(J&, const Element& e)> injection) const
 			{
 				J	accumulator = start;
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					accumulator = injection(accumulator, *bp);
@@ -409,7 +409,7 @@ public:
 			}
 	int		bsearch(std::function<int(const Element& e)> comparator) const
 			{
-				const Element*	dp = body->data()+offset;	// Start of our slice
+				const Element*	dp = asElements();		// Start of our slice
 				Index		l = 0;
 				Index		r = num_elements;
 				while (r > l)
-- 
2.43.0


From acb722a4fc563ef19b791403e98b05b002284cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 08/90] fix: make Array elem_ref, unshift, append and reverse
 compile when used

---
 include/array.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/array.h b/include/array.h
index df9d5e7..788e542 100644
--- a/include/array.h
+++ b/include/array.h
@@ -77,7 +77,8 @@ public:
 			  Unshare();
 			  return body->data()[offset+elem_num]; }
 	const Element&	elem_ref(int elem_num) const
-			{ return elem_mut(elem_num); }
+			{ assert(elem_num >= 0 && elem_num < num_elements && body);
+			  return body->data()[offset+elem_num]; }
 	const Element*	asElements() const
 			{ return body ? body->data()+offset : 0; }
 
@@ -246,7 +247,7 @@ public:
 	Element		shift()				// remove an element from the start
 			{ assert(num_elements > 0); return delete_at(0); }
 	ArrayR&		unshift(const Element& e)	// Insert an element at the start
-			{ Unshare(); body->insert(0, e); num_elements++; return *this; }
+			{ Unshare(1); body->insert(offset, &e, 1); num_elements++; return *this; }
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
 				if ((Body*)body == (Body*)addend.body)	// From the same body
@@ -276,7 +277,7 @@ public:
 				return *this;
 			}
 	ArrayR&		append(const ArrayR& addend)	// Append an ArrayR to the end
-			{ return insert(num_elements, addend.asElements(), addend.length()); }
+			{ return insert(num_elements, addend); }
 	ArrayR&		append(const Element& addend)	// Append an element to the end
 			{ return push(addend); }
 	ArrayR&		reverse()
@@ -284,8 +285,8 @@ public:
 				if (num_elements == 0)
 					return *this;				// body may be null
 				Unshare();
-				const Element*	dp = asElements();		// Start of our slice
-				const Element*	ep = dp+num_elements;		// End of our slice
+				Element*	dp = body->data()+offset;	// Start of our slice
+				Element*	ep = dp+num_elements;		// End of our slice
 				while (ep-dp > 1)				// We haven't reached the middle yet
 				{
 					Element	e = *--ep;
@@ -444,7 +445,8 @@ public:
 				assert(offs+len <= (body ? body->length() : 0));
 			}
 protected:
-	bool		isStatic() const;
+	bool		isStatic() const
+			{ return body && body->isStatic(); }
 
 private:
 	Ref<Body>	body;		// The storage structure for the elements
-- 
2.43.0


From 9c8830bd8f61006797213153da433f71107605a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:41 +0000
Subject: [PATCH 09/90] fix: inserting an Array into itself must not read
 released storage

---
 include/array.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/array.h b/include/array.h
index 788e542..870a9c5 100644
--- a/include/array.h
+++ b/include/array.h
@@ -269,6 +269,13 @@ public:
 						num_elements += addend.length();
 						return *this;
 					}
+
+					// The addend's storage must survive changes to our own
+					const ArrayR	held(addend);
+					Unshare(held.length());
+					body->insert(offset+pos, held.asElements(), held.length());
+					num_elements += held.length();
+					return *this;
 				}
 
 				Unshare(addend.length());
-- 
2.43.0


From 57ab3406e6e1a242ad6f2f6ef3a63abc6c8ec48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 10/90] fix: mutating an unshared substring must not operate on
 the rest of its body

---
 include/strval.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index fadc15e..e0793c8 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -806,10 +806,10 @@ private:
 
 	void		Unshare()
 			{
-				// A substring on Unallocated memory which is the last remaining ref
-				// cannot be terminated correctly, so must be copied even if unshared
-				bool	must_copy_static = body->isStatic() && offset+length() < body->numChars();
-				if (must_copy_static || body->isShared())
+				// A substring must be copied even if unshared. The rest of the body is not
+				// part of this value, and must not be affected by (or become part of) a change.
+				bool	is_substring = offset > 0 || offset+length() < body->numChars();
+				if (is_substring || body->isShared())
 					copyBody();
 			}
 
-- 
2.43.0


From 8b6243fceafa64ad755820cecff22c31630a8bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 11/90] fix: inserting a StrVal into itself must not read
 released storage

---
 include/strval.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/strval.h b/include/strval.h
index e0793c8..56070d7 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -694,6 +694,9 @@ public:
 					return *this;
 				}
 
+				if (&addend == this)			// Our own storage will be reallocated
+					return insert(pos, StrValI(addend));
+
 				Unshare();
 
 				// REVISIT: Handle StrRawBinary data
-- 
2.43.0


From d0cf98312084c66a05587f18e5d12ae5b70af50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 12/90] fix: StrVal bookmarks must not survive changes that
 move the bookmarked character

---
 include/strval.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 56070d7..1a9e441 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -703,7 +703,8 @@ public:
 				Index		addend_length;		// Get length in bytes
 				const char*	ap = addend.asUTF8(addend_length);
 				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);
-				// REVISIT: update or nullify the bookmark if after insertion point
+				if (mark.char_num > pos)
+					mark = Bookmark();	// This character has moved
 				num_chars += addend.length();
 				return *this;
 			}
@@ -719,6 +720,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toLower();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	toUpper()
@@ -726,6 +728,7 @@ public:
 				Unshare();	// REVISIT: Unshare only when first change must be made
 				body->toUpper();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 	StrValI&	transform(const std::function<StrValI(const char*& cp, const char* ep)> xform, int after = -1);
@@ -735,6 +738,7 @@ public:
 				Unshare();
 				body->toJSON();
 				num_chars = body->numChars();
+				mark = Bookmark();
 				return *this;
 			}
 
@@ -802,8 +806,10 @@ private:
 				Index		prefix_bytes = cp - body->nthChar(0, mark); // How many leading bytes of the body we are eliding
 
 				body = new Body(cp, body->isRawBinary() ? StrRawBinary : StrUTF8, ep-cp);
-				mark.char_num = savemark.char_num - offset;	// Restore the bookmark
-				mark.byte_num = savemark.byte_num - prefix_bytes;
+				if (savemark.char_num > offset)
+					mark = Bookmark(savemark.char_num - offset, savemark.byte_num - prefix_bytes);
+				else
+					mark = Bookmark();	// The bookmark was not in this substring
 				offset = 0;
 			}
 
-- 
2.43.0


From c18fa7357073b763f4ebd7b9b12795d9657d9ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 13/90] fix: StrVal character searches must not examine the
 character past the end

---
 include/strval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 1a9e441..36925aa 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -496,7 +496,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					if (ch == getChar(up))
 						return n;		// Found at n
@@ -558,7 +558,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
@@ -589,7 +589,7 @@ public:
 			{
 				Index		n = after+1;		// First Index we'll look at
 				const char*	up;
-				while ((up = nthChar(n)) != 0)
+				while (n < length() && (up = nthChar(n)) != 0)
 				{
 					UCS4	ch = getChar(up);
 					for (Index i = 0; i < s1.length(); i++)
-- 
2.43.0


From 5a20ab55eef6d05425b53ddd7c0a23735600b613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 14/90] fix: StrVal substring searches must stay within both
 strings

---
 include/strval.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 36925aa..da89f0e 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -522,14 +522,18 @@ public:
 	// Search for substrings:
 	int		find(const StrValI& s1, int after = -1) const
 			{
+				if (s1.length() > length())
+					return -1;
 				Index		n = after+1;		// First Index we'll look at
 				Index		last_start = length()-s1.length();	// Last possible start position
 				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes = s1.numBytes();
+				const char*	ep = nthChar(length());
 				const char*	up;
 				while (n <= last_start && (up = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(up, s1start, s1.numBytes()) == 0)
+					if (s1bytes <= ep-up && memcmp(up, s1start, s1bytes) == 0)
 						return n;
 					n++;
 				}
@@ -537,16 +541,20 @@ public:
 			}
 	int		rfind(const StrValI& s1, int before = -1) const
 			{
+				if (s1.length() > length() || before == 0)
+					return -1;
 				Index		n = before == -1 ? length()-s1.length() : before-1;	// First Index we'll look at
 				if (n > length()-s1.length())
 					n = length()-s1.length();
 
 				const char*	s1start = s1.nthChar(0);
+				Index		s1bytes = s1.numBytes();
+				const char*	ep = nthChar(length());
 				const char*	bp;
 				while ((bp = nthChar(n)) != 0)
 				{
 					// REVISIT: Only works if the StrDataType matches
-					if (memcmp(bp, s1start, s1.numBytes()) == 0)
+					if (s1bytes <= ep-bp && memcmp(bp, s1start, s1bytes) == 0)
 						return n;
 					n--;
 				}
-- 
2.43.0


From 327e4ac945ee5667f07efb2b9afa82d4111434bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 15/90] fix: StrVal comparison must not read beyond the shorter
 string

---
 include/strval.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index da89f0e..6c64b12 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -878,10 +878,14 @@ int StrValI<Index>::compare(const StrValI& comparand, CompareStyle style) const
 	switch (style)
 	{
 	case CompareRaw:
-		cmp = memcmp(nthChar(0), comparand.nthChar(0), numBytes());
+	{
+		Index	bytes = numBytes();
+		Index	comparand_bytes = comparand.numBytes();
+		cmp = memcmp(nthChar(0), comparand.nthChar(0), bytes < comparand_bytes ? bytes : comparand_bytes);
 		if (cmp == 0)
-			cmp = numBytes() - comparand.numBytes();
+			cmp = (int)(bytes - comparand_bytes);
 		return cmp;
+	}
 
 	case CompareCI:
 		assert(!"REVISIT: Case-independent comparison is not implemented");
-- 
2.43.0


From f71521bf432ea526c192fd3e893c8d5dfeb37ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 16/90] fix: counting characters must not expose a partial
 count to other threads

---
 include/strval.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index 6c64b12..b465ca6 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -253,6 +253,7 @@ protected:
 
 				const char*	cp = start;		// Progress pointer when reading data
 				char*		ep = start+num_elements-1;	// Marker for end of data
+				Index		count = 0;		// Other threads may share this body; don't expose a partial count
 				while (cp < ep)
 				{
 					UCS4		ch = UTF8Get(cp);
@@ -260,8 +261,9 @@ protected:
 					 || cp > ep)			// Overlaps the end of data
 						break;			// An error occurred before the end of the data; truncate it.
 					// Count illegal UTF-8 characters here
-					num_chars++;
+					count++;
 				}
+				num_chars = count;
 			}
 
 	UCS4		getChar(const char*& cp) const	// Return next character, next advancing cp
-- 
2.43.0


From 31d8043762716dbf34ba7b7f22e19e2c55b6378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 17/90] fix: constructing a StrVal from counted data must not
 read beyond the data

---
 include/strval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index b465ca6..d7de1a1 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -78,13 +78,13 @@ public:
 	~StrBodyI()	{}
 	StrBodyI()	: num_chars(0) {}
 	StrBodyI(const char* data, StrDataType dt, Index length = 0, Index allocate = 0)
-			: Body(data, dt != StrStatic, (length == 0 ? strlen(data) : length)+1, allocate)
+			: Body(data, dt != StrStatic, length == 0 ? strlen(data)+1 : length+(dt == StrStatic ? 1 : 0), allocate <= length ? length+1 : allocate)
 			, num_chars(0)
 			{
 				// REVISIT: Need a Panic() function when a string passes the allowed maximum size
 				// assert(num_elements < StrValIndexRawBinaryMarker);
 				if (dt != StrStatic && length != 0)
-					start[num_elements-1] = '\0';	// Perhaps we didn't copy a NUL, so add one
+					start[num_elements++] = '\0';	// We didn't copy a NUL (there might not be one), so add it
 				if (dt == StrRawBinary)
 					num_chars = StrValIndexRawBinaryMarker;	// one byte = one char, don't count them
 			}
-- 
2.43.0


From d7b714254e05a04d0135ffc06806e3ff422b92dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 18/90] fix: CowMap::put must not change the maps that share
 its body

---
 include/cowmap.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 7e46a13..8f7c0c4 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -75,10 +75,12 @@ public:
 			{ Unshare(); body->erase(k); }
 	Key	put(const Key& k, Value v)
 			{
-				auto search = find(k);
-				if (search != end())
-					body->erase(k);
-				insert(k, v);
+				Unshare();		// Don't change a body that others share
+				auto search = body->find(k);
+				if (search != body->end())
+					search->second = v;
+				else
+					body->insert(BaseVP(k, v));
 				return k;
 			}
 
-- 
2.43.0


From b7f831d342f6c2246eb236b65f12eac442a55b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 19/90] fix: make CowMap's functional methods compile when used

---
 include/cowmap.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 8f7c0c4..731e729 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -87,35 +87,35 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	Array<Key>	keys() const
 			{
-				Array<K>	all_keys((Value*)0, 0, size());
+				Array<K>	all_keys((Key*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_keys.append(it.first);
+					all_keys.append(it->first);
 				return all_keys;
 			}
 	Array<Value>	values() const
 			{
 				Array<Value>	all_values((Value*)0, 0, size());
 				for (Iter it = begin(); it != end(); it++)
-					all_values.append(it.second);
+					all_values.append(it->second);
 				return all_values;
 			}
 
 	void		each(std::function<void(const Key& k, const Value& v)> operation) const
 			{
 				for (Iter it = begin(); it != end(); it++)
-					operation(it.first, it.second);
+					operation(it->first, it->second);
 			}
 	bool		all(std::function<bool(const Key& k, const Value& v)> condition) const	// Do all elements satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (!condition(it.first, it.second))
+					if (!condition(it->first, it->second))
 						return false;
 				return true;
 			}
 	bool		any(std::function<bool(const Key& k, const Value& v)> condition) const	// Does any element satisfy the condition?
 			{
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 						return true;
 				return false;
 			}
@@ -123,7 +123,7 @@ public:
 			{
 				bool		found = false;
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
+					if (condition(it->first, it->second))
 					{
 						if (found)
 							return false;
@@ -137,8 +137,8 @@ public:
 				CowMap	selected;
 
 				for (Iter it = begin(); it != end(); it++)
-					if (condition(it.first, it.second))
-						selected.put(it.first, it.second);
+					if (condition(it->first, it->second))
+						selected.put(it->first, it->second);
 				return selected;
 			}
 	template<typename V2 = V, typename K2 = K>
@@ -146,7 +146,10 @@ public:
 			{
 				CowMap<V2, K2>	output;
 				for (Iter it = begin(); it != end(); it++)
-					output.append(map1(it.first, it.second));
+					{
+					auto	kv = map1(it->first, it->second);
+					output.put(kv.first, kv.second);
+				}
 				return output;
 			}
 	template<typename J>
@@ -154,7 +157,7 @@ public:
 			{
 				J	accumulator = start;
 				for (Iter it = begin(); it != end(); it++)
-					accumulator = injection(accumulator, it.first, it.second);
+					accumulator = injection(accumulator, it->first, it->second);
 				return accumulator;
 			}
 
-- 
2.43.0


From 7c4f48aac0814756365f051230a71573a1920942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 20/90] fix: Variant coercion between integer types must update
 the type

---
 include/variant.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index 7f1065f..cbcdbf1 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -288,9 +288,9 @@ protected:
 			{
 			case Integer:	return; // Already handled
 			case Long:	if (u.l != (int)u.l) break;	// Fail if it would truncate
-					u.i = (int)u.l; return;
+					u.i = (int)u.l; _type = new_type; return;
 			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate
-					u.i = (int)u.ll; return;
+					u.i = (int)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
 					if (!e)				// Some error in conversion
 						break;
@@ -308,10 +308,10 @@ protected:
 		case Long:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
+			case Integer:	u.l = u.i; _type = new_type; return;
 			case Long:	return; // Already handled
 			case LongLong:	if (u.ll != (long)u.ll) break;	// Fail if it would truncate
-					u.l = (long)u.ll; return;
+					u.l = (long)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (!e)				// Some error in conversion
 						break;
@@ -329,8 +329,8 @@ protected:
 		case LongLong:
 			switch (old_type)
 			{
-			case Integer:	u.l = u.i; return;
-			case Long:	u.ll = u.l; return;
+			case Integer:	u.ll = u.i; _type = new_type; return;
+			case Long:	u.ll = u.l; _type = new_type; return;
 			case LongLong:	return; // Already handled
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
-- 
2.43.0


From 4ea973a38b702a8223aa33c4eb00f3e93b026538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 21/90] fix: Variant coercion from String must accept a valid
 integer, and only that

---
 include/variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/variant.h b/include/variant.h
index cbcdbf1..0ce0893 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -292,7 +292,7 @@ protected:
 			case LongLong:	if (u.ll != (int)u.ll) break;	// Fail if it would truncate
 					u.i = (int)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
 					u.i = i32;
 					_type = new_type;
@@ -313,7 +313,7 @@ protected:
 			case LongLong:	if (u.ll != (long)u.ll) break;	// Fail if it would truncate
 					u.l = (long)u.ll; _type = new_type; return;
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
-					if (!e)				// Some error in conversion
+					if (e)				// Some error in conversion
 						break;
 					u.l = i32;
 					_type = new_type;
-- 
2.43.0


From 2651e2410919ff272beeb97e6cfa757fbaed8a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 22/90] fix: Variant coercion from String must release the
 string

---
 include/variant.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/variant.h b/include/variant.h
index 0ce0893..80008a9 100644
--- a/include/variant.h
+++ b/include/variant.h
@@ -294,6 +294,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Release the string
 					u.i = i32;
 					_type = new_type;
 					return;
@@ -315,6 +316,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Release the string
 					u.l = i32;
 					_type = new_type;
 					return;
@@ -335,6 +337,7 @@ protected:
 			case String:	i32 = StrVal(u.str).asInt32(&e, 0);	// REVISIT: int32 only, or it fails
 					if (e)				// Some error in conversion
 						break;
+					coerce_none();			// Release the string
 					u.ll = i32;
 					_type = new_type;
 					return;
-- 
2.43.0


From 2b126917e6358e7a32e523d41cb387619417a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 23/90] fix: ErrNum flag bits must not overlap the message set

---
 include/error.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/error.h b/include/error.h
index dc39a73..27fbbad 100644
--- a/include/error.h
+++ b/include/error.h
@@ -38,8 +38,8 @@
 class ErrNum
 {
 public:
-	static const int32_t	ERR_FLAG = 0x8000000;	// Sign bit is used to indicate an error, allowing quick checks
-	static const int32_t	ERR_CUST = 0x4000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
+	static const int32_t	ERR_FLAG = (int32_t)0x80000000;	// Sign bit is used to indicate an error, allowing quick checks
+	static const int32_t	ERR_CUST = 0x40000000;	// Including this bit guarantees no collision with Microsoft subsystem codes
 
 	constexpr ErrNum()
 			: errnum(0) {}
-- 
2.43.0


From 09bfc1bda9044e885312b4fc778a8420bf1912ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 24/90] fix: asInt32 must report overflow of an int32_t

---
 include/strval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strval.h b/include/strval.h
index d7de1a1..29328dd 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1095,7 +1095,7 @@ int32_t StrValI<Index>::asInt32(
 	if (scanned)
 		*scanned = i;
 
-	if (l > (unsigned long)LONG_MAX+(negative ? 1 : 0))
+	if (l > (unsigned long)INT32_MAX+(negative ? 1 : 0))
 	{
 		if (err_return)
 			*err_return = ErrNum(STRERR_SET, STRERR_NUMBER_OVERFLOW);
-- 
2.43.0


From 91c5b36661a0a0c1e23998bc310c2e8e3febb1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 25/90] fix: asInt32 must accept the documented prefixes with
 radix 2 and 16

---
 include/strval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 29328dd..5ecc57c 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1026,7 +1026,7 @@ int32_t StrValI<Index>::asInt32(
 			goto no_digits;
 	}
 
-	if (radix == 0)		// Auto-detect radix (octal, decimal, binary)
+	if (radix == 0 || radix == 2 || radix == 16)	// Auto-detect radix (octal, decimal, binary), or skip prefix
 	{
 		if (UCS4Digit(ch) == 0 && i+1 < len)
 		{
@@ -1057,7 +1057,7 @@ int32_t StrValI<Index>::asInt32(
 				break;
 			}
 		}
-		else
+		else if (radix == 0)
 			radix = 10;
 	}
 
-- 
2.43.0


From 2cb042754c6db38df38f4dbef1ca308d687b36cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 26/90] fix: JSON has no escape \0, use \u0000

---
 include/strval.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 5ecc57c..e17f55a 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1142,8 +1142,6 @@ StrBodyI<Index>::toJSON()
 			char*	op = one_char;		// Pack it into our local buffer
 			switch (ch)
 			{
-			case '\0':	// Null Byte
-				*op++ = '\\'; *op++ = '0'; break;
 			case '\"':	// Double quote
 				*op++ = '\\'; *op++ = '\"'; break;
 			case '\\':	// Backslash character
-- 
2.43.0


From 6786bd2aecb105f3039d8621e20a09060afe9b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 27/90] fix: JSON surrogate pairs must subtract 0x10000

---
 include/strval.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index e17f55a..bd923da 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1191,8 +1191,9 @@ StrBodyI<Index>::toJSON()
 				}
 
 				// We need two surrogates for Emoji's etc.
-				assert(ch <= 0xFFFFF);
-				// Surrogate pair: D800 to DBFF, Low surrogate: D800 to DBFF
+				assert(ch <= 0x10FFFF);
+				// Surrogate pair: D800 to DBFF, Low surrogate: DC00 to DFFF
+				ch -= 0x10000;
 				u4(0xD800+((ch>>10)&0x3FF), op);
 				u4(0xDC00+(ch&0x3FF), op);
 				break;
-- 
2.43.0


From 486319c38079a9d86612b168edfcd66c09e98760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 28/90] fix: format must use a numbered argument, and the
 conversion character after it

---
 include/strformat.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/strformat.h b/include/strformat.h
index fb8bde5..9817821 100644
--- a/include/strformat.h
+++ b/include/strformat.h
@@ -9,7 +9,6 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 	bool	leading_zeroes;	// Whether to pad with leading zeroes
 	int	d;		// A digit
 	int	a = 0;		// Arg index
-	int	numbered_arg;
 
 	Index	m = f.length();
 	for (Index i = 0; i < m; i++)
@@ -21,12 +20,13 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 			continue;
 		}
 		c = f[++i];	// Skip the %
+		int	numbered_arg = 0;
 
 		if (i+2 < m && (d = Digit(c, 10)) > 0 && f[i+1] == '$')
 		{		// Extract the argument sequence digit
 			numbered_arg = d;
 			i += 2;
-			c = f[++i];	// Skip ASD
+			c = f[i];	// Skip ASD
 		}
 
 		// Get the size
@@ -63,19 +63,22 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		if (prec == -1)
 			prec = args[a++].as_int();
 
+		// Get the argument for a conversion: the numbered one, or the next
+		auto	arg = [&]() -> Variant { return args[numbered_arg ? numbered_arg-1 : a++]; };
+
 		// Get the conversion character
 		switch (c)
 		{
 		case 's':
 			// REVISIT: Handle size and prec
-			result += args[a++].as_strval();
+			result += arg().as_strval();
 			break;
 
 		case 'd':
 		case 'f':
 		case 'g':
 			// REVISIT: Handle size and prec
-			result += args[a++].as_json();
+			result += arg().as_json();
 			break;
 
 		default:
-- 
2.43.0


From de81fa5219fe63e0a0decd7d74fbae7977e68eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 29/90] fix: format must emit a doubled percent sign

---
 include/strformat.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/strformat.h b/include/strformat.h
index 9817821..3708dbf 100644
--- a/include/strformat.h
+++ b/include/strformat.h
@@ -81,6 +81,10 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 			result += arg().as_json();
 			break;
 
+		case '%':
+			result += '%';
+			break;
+
 		default:
 			break;
 		}
-- 
2.43.0


From a9593582c85e82d29e604d46d49d8ee57f6fa695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:02 +0000
Subject: [PATCH 30/90] fix: format must find the conversion character after *

---
 include/strformat.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/strformat.h b/include/strformat.h
index 3708dbf..397a823 100644
--- a/include/strformat.h
+++ b/include/strformat.h
@@ -33,7 +33,10 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		size = 0;
 		leading_zeroes = false;
 		if (c == '*')
+		{
 			size = -1;
+			c = f[++i];
+		}
 		else if ((d = Digit(c, 10)) >= 0)
 		{
 			if (d == 0)
@@ -49,7 +52,10 @@ StrVal	StrValI<Index>::format(StrVal f, VariantArray args)
 		{
 			c = f[++i];
 			if (c == '*')
+			{
 				prec = -1;
+				c = f[++i];
+			}
 			else if ((d = Digit(c, 10)) >= 0)
 			{
 				prec = d;
-- 
2.43.0


From c4da7ca04005d9d28ad246d2b513375edfbdbbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 31/90] fix: StringArray from StrVal data must step by the size
 of a StrVal

---
 include/strval.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index bd923da..273f028 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -1215,8 +1215,10 @@ public:
 	StringArray() {}
 	StringArray(const Base& a1) : Base(a1) {}
 	StringArray(const StrVal* data, Index size, Index allocate = 0)
-	: Array(data, size, allocate)
-	{
+	: Array((const StrRef*)0, 0, allocate < size ? size : allocate)
+	{				// A StrVal is bigger than the StrRef elements, so we can't just copy the block
+		for (Index i = 0; i < size; i++)
+			append(data[i]);
 	}
 
 	// Construct from an Array of const char*
-- 
2.43.0


From b00151e080c83e880e90a5c79c9f99a45562fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 32/90] fix: a Thread must be New until it is started

---
 include/thread.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/thread.h b/include/thread.h
index 2531cfe..e71d4fa 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -115,6 +115,8 @@ public:
 };
 
 Thread::Thread()
+: thread_id(0)
+, state(New)		// joinAny must not see an old state left here by an ended thread
 {
 #if	defined(HAVE_PTHREADS)
 	// pthread_create starts the thread immediately, before subclass construction has finished,
-- 
2.43.0


From 9f3dd7fb09353c5f5120be61823a8950ef701d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 33/90] fix: Thread state must be changed under the latch

---
 src/thread.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 417f4a1..4bd1c59 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -27,12 +27,12 @@ Thread::ThreadProc(void* _this)
 	// This code can be run *before* pthread_create has assigned the thread_id. Wait for it.
 	thread_latch.enter();
 	assert(t->id());
+	t->state = Started;
 	thread_latch.leave();
 #elif	defined(MSW)
 	assert(t->handle());
-#endif
-
 	t->state = Started;
+#endif
 
 #if	defined(HAVE_PTHREADS)
 	void*	ret = (void*)(long)t->run();
-- 
2.43.0


From 906454b2e9a304bee53a2ac51fb75e4d61d522b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 34/90] fix: joinAny must wait for the last thread, and return
 when another joiner has taken it

---
 src/thread.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 4bd1c59..830647b 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -80,15 +80,10 @@ Thread*
 Thread::joinAny()
 {
 	thread_latch.enter();
-	if (threads.size() <= 1)
-	{
-		thread_latch.leave();
-		return 0;	// No threads except main
-	}
 
 	// Search for a thread whose state is Ended
 	// Remove it from the map and decrement the ended_threads count
-	for (;;)
+	while (!threads.empty())	// The main thread is not in the map
 	{
 		if (ended_count == 0)	// None have exited but not been joined
 		{
@@ -107,11 +102,14 @@ Thread::joinAny()
 			threads.erase(tid);
 			assert(!Thread::find(tid));
 			ended_count--;
+			if (threads.empty())
+				ended_threads_condition.broadcast();	// Other joiners have nothing left to wait for
 			thread_latch.leave();
 			return thread;
 		}
 	}
-	// Never returns by this path
+	thread_latch.leave();
+	return 0;	// No threads except main
 }
 
 void
@@ -134,6 +132,8 @@ Thread::join()		// Wait for this thread to end
 		int erased = threads.erase(thread_id);
 		assert(erased == 1);
 		ended_count--;
+		if (threads.empty())
+			ended_threads_condition.broadcast();	// Other joiners have nothing left to wait for
 	}
 	thread_latch.leave();
 
-- 
2.43.0


From d70aad4f9984b2138b66c466d42be22b51bb1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 35/90] fix: joinAny must join the thread it reports

---
 src/thread.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/thread.cpp b/src/thread.cpp
index 830647b..85885c2 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -105,6 +105,9 @@ Thread::joinAny()
 			if (threads.empty())
 				ended_threads_condition.broadcast();	// Other joiners have nothing left to wait for
 			thread_latch.leave();
+#if	defined(HAVE_PTHREADS)
+			pthread_join(tid, 0);		// Wait for it to exit and release its stack
+#endif
 			return thread;
 		}
 	}
@@ -119,6 +122,12 @@ Thread::join()		// Wait for this thread to end
 	assert(caller != thread_id);	// Can't wait for self!
 	assert(thread_id != 0);		// Can't join a thread that hasn't started
 
+	thread_latch.enter();
+	bool	unjoined = Thread::find(thread_id) == this;
+	thread_latch.leave();
+	if (!unjoined)
+		return;		// joinAny got there first
+
 #if	defined(HAVE_PTHREADS)
 	void*	retval; // Value returned from pthread_exit, or PTHREAD_CANCELLED
 	int	error = pthread_join(thread_id, &retval);
-- 
2.43.0


From 69e4445bb36bbf3e56d88ab123234d5585672675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 36/90] fix: a Thread destroyed without being joined must be
 detached

---
 include/thread.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/thread.h b/include/thread.h
index e71d4fa..cc44a52 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -203,6 +203,9 @@ Thread::remove_ended()
 		if (state == Ended)
 			ended_count--;
 		threads.erase(thread_id);	// Remove from map
+#if	defined(HAVE_PTHREADS)
+		pthread_detach(thread_id);	// It will not be joined now
+#endif
 	}
 	thread_latch.leave();
 	thread_id = 0;
-- 
2.43.0


From 4fd1446975675257838c11673a8c74fd30563405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 37/90] fix: a Thread that fails to start must not be waited
 for

---
 include/thread.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/thread.h b/include/thread.h
index cc44a52..0949213 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -179,7 +179,13 @@ Thread::resume()
 	int	code = pthread_create(&thread_id, (pthread_attr_t*)0, Thread::ThreadProc, this);
 	// if (!code) { Error(ERR_THREAD_CREATE, ...); }		// REVISIT: Report failure to start thread
 
-	threads.insert({thread_id, this});
+	if (code == 0)
+		threads.insert({thread_id, this});
+	else
+	{		// It can't run, and mustn't be waited for
+		thread_id = 0;
+		state = Ended;
+	}
 	thread_latch.leave();
 #elif	defined(MSW)
 	if (thread_handle)
-- 
2.43.0


From 9565248fd662345f2708bd8956e3290056194eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 38/90] fix: Thread::exit must be callable from other source
 files

---
 include/thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thread.h b/include/thread.h
index 0949213..809565b 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -49,7 +49,7 @@ public:
 	static	inline ThreadId		currentId();	// current thread id, fast
 	static	inline ProcessId	currentProcessId();
 	static	inline Thread*		current();	// current thread, slower
-	inline void			exit(int);	// exit the current thread
+	static	void			exit(int);	// exit the current thread
 	static	inline Thread*		main();		// main thread. REVISIT: needed?
 
 	// REVISIT: Iterate over all live threads
-- 
2.43.0


From 05e0020611ef76b3a1c06095934bc402e38c7eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 39/90] fix: Thread::exit must end the thread, so that it ends
 only once

---
 src/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/thread.cpp b/src/thread.cpp
index 85885c2..befa3c5 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -71,6 +71,7 @@ void Thread::exit(int code)
 	thread_latch.leave();
 
 #if	defined(HAVE_PTHREADS)
+	pthread_exit((void*)(long)code);
 #elif	defined(MSW)
 	ExitThread(code);
 #endif
-- 
2.43.0


From 3fdf12d7c347ca8755c85761448848b7bd770159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 40/90] fix: Latch construction must not use attributes that
 are not yet initialised

---
 include/lockfree.h | 15 +++++----------
 src/lockfree.cpp   |  5 +----
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/lockfree.h b/include/lockfree.h
index 0c92b7f..000a9da 100644
--- a/include/lockfree.h
+++ b/include/lockfree.h
@@ -39,9 +39,6 @@ public:
 	// The PTHREADs implementation allows us to use these with pthread condition variables
 	pthread_mutex_t	mutex;
 
-	static	std::atomic<bool>	initialised;
-	static	pthread_mutexattr_t	attr;
-
 #else
 	// On Windows, condition variables are based on system events so we can do this using atomic
 	std::atomic<ThreadId>	mutex;
@@ -60,14 +57,12 @@ public:
 #if	defined(HAVE_PTHREADS)
 Latch::Latch()
 {
-	if (!initialised)
-	{
-		initialised = true;
-		pthread_mutexattr_init(&Latch::attr);
-		pthread_mutexattr_settype(&Latch::attr, PTHREAD_MUTEX_ERRORCHECK);
-	}
-
+	// Attributes shared with other Latches might not be initialised yet by the thread doing that
+	pthread_mutexattr_t	attr;
+	pthread_mutexattr_init(&attr);
+	pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_ERRORCHECK);
 	pthread_mutex_init(&mutex, &attr);
+	pthread_mutexattr_destroy(&attr);
 }
 
 Latch::~Latch()
diff --git a/src/lockfree.cpp b/src/lockfree.cpp
index 3badcf0..586f2d6 100644
--- a/src/lockfree.cpp
+++ b/src/lockfree.cpp
@@ -6,10 +6,7 @@
 #include	<assert.h>
 #include	<lockfree.h>
 
-#if	defined(HAVE_PTHREADS)
-pthread_mutexattr_t	Latch::attr;
-std::atomic<bool>	Latch::initialised;
-#else
+#if	!defined(HAVE_PTHREADS)
 
 int			Latch::num_cores;
 
-- 
2.43.0


From 8116e175f379297aafcd57635c4320f298493e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 41/90] fix: Condition timed wait must wait until an absolute
 time

---
 src/condition.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/condition.cpp b/src/condition.cpp
index 13adb95..ffa1f54 100644
--- a/src/condition.cpp
+++ b/src/condition.cpp
@@ -6,6 +6,7 @@
  * continued, any thread that tries to signal it again will block.
  */
 #include	<unistd.h>
+#include	<time.h>
 
 #include	<thread.h>
 #include	<condition.h>
@@ -146,8 +147,14 @@ Condition::wait(		// Wait for a ticket
 #if	defined(HAVE_PTHREADS)
 	int		retcode;
 	struct timespec	ts;
-	ts.tv_sec = (unsigned long)timeout / 1000;
-	ts.tv_nsec = (unsigned long)timeout % 1000 * 1000000L;
+	clock_gettime(CLOCK_REALTIME, &ts);	// The time to wait until is absolute
+	ts.tv_sec += (unsigned long)timeout / 1000;
+	ts.tv_nsec += (unsigned long)timeout % 1000 * 1000000L;
+	if (ts.tv_nsec >= 1000000000L)
+	{
+		ts.tv_sec++;
+		ts.tv_nsec -= 1000000000L;
+	}
 	retcode = pthread_cond_timedwait(&cond, &user_latch->mutex, &ts);
 	if (retcode == ETIMEDOUT)
 	{
-- 
2.43.0


From 98ff6d909579ec9272320ed8e12df8e8b063ec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 42/90] fix: Condition::wait must work without a latch, as its
 default argument allows

---
 include/condition.h |  1 +
 src/condition.cpp   | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/condition.h b/include/condition.h
index 70244b1..5e0d852 100644
--- a/include/condition.h
+++ b/include/condition.h
@@ -40,6 +40,7 @@ public:
 private:
 #if	defined(HAVE_PTHREADS)
 	pthread_cond_t		cond;
+	Latch			latch;		// Held by waiters that have no latch of their own
 #elif	defined(MSW)
 	Latch			latch;
 	int			waiters_count;	// Number of threads waiting
diff --git a/src/condition.cpp b/src/condition.cpp
index ffa1f54..2663984 100644
--- a/src/condition.cpp
+++ b/src/condition.cpp
@@ -62,7 +62,14 @@ Condition::wait(
 )
 {
 #if	defined(HAVE_PTHREADS)
-	pthread_cond_wait(&cond, &user_latch->mutex);
+	if (user_latch)
+		pthread_cond_wait(&cond, &user_latch->mutex);
+	else
+	{
+		latch.enter();
+		pthread_cond_wait(&cond, &latch.mutex);
+		latch.leave();
+	}
 #elif	defined(MSW)
 	// Increment the count of waiters and grab the generation count:
 	ThreadId	tid = Thread::currentId();
@@ -155,7 +162,11 @@ Condition::wait(		// Wait for a ticket
 		ts.tv_sec++;
 		ts.tv_nsec -= 1000000000L;
 	}
-	retcode = pthread_cond_timedwait(&cond, &user_latch->mutex, &ts);
+	if (!user_latch)
+		latch.enter();
+	retcode = pthread_cond_timedwait(&cond, user_latch ? &user_latch->mutex : &latch.mutex, &ts);
+	if (!user_latch)
+		latch.leave();
 	if (retcode == ETIMEDOUT)
 	{
 		timeout = 0;
-- 
2.43.0


From c144bcb699aea111957f98a2ae38cf5af040fa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 43/90] fix: waking joiners once more for the last thread is
 not needed

---
 src/thread.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index befa3c5..d13eade 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -103,8 +103,6 @@ Thread::joinAny()
 			threads.erase(tid);
 			assert(!Thread::find(tid));
 			ended_count--;
-			if (threads.empty())
-				ended_threads_condition.broadcast();	// Other joiners have nothing left to wait for
 			thread_latch.leave();
 #if	defined(HAVE_PTHREADS)
 			pthread_join(tid, 0);		// Wait for it to exit and release its stack
@@ -142,8 +140,6 @@ Thread::join()		// Wait for this thread to end
 		int erased = threads.erase(thread_id);
 		assert(erased == 1);
 		ended_count--;
-		if (threads.empty())
-			ended_threads_condition.broadcast();	// Other joiners have nothing left to wait for
 	}
 	thread_latch.leave();
 
-- 
2.43.0


From 93f0aba87d9408aa7431e784a7473ce86cefe58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 44/90] fix: destroying a joined Thread must not forget another
 that has its id by now

---
 include/thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/thread.h b/include/thread.h
index 809565b..3f5f8a2 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -204,7 +204,7 @@ void
 Thread::remove_ended()
 {
 	thread_latch.enter();
-	if (Thread::find(thread_id))
+	if (Thread::find(thread_id) == this)	// Another thread might have its id by now
 	{
 		if (state == Ended)
 			ended_count--;
-- 
2.43.0


From 922489cbc7f629516aa1604e8df9ffe0f610aff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 45/90] fix: a new Thread may have the id of one that join()
 has not yet forgotten

---
 include/thread.h | 4 ++++
 src/thread.cpp   | 3 +--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/thread.h b/include/thread.h
index 3f5f8a2..90360c3 100644
--- a/include/thread.h
+++ b/include/thread.h
@@ -180,7 +180,11 @@ Thread::resume()
 	// if (!code) { Error(ERR_THREAD_CREATE, ...); }		// REVISIT: Report failure to start thread
 
 	if (code == 0)
+	{
+		if (threads.erase(thread_id))	// join() is about to remove an ended thread whose id we now have
+			ended_count--;
 		threads.insert({thread_id, this});
+	}
 	else
 	{		// It can't run, and mustn't be waited for
 		thread_id = 0;
diff --git a/src/thread.cpp b/src/thread.cpp
index d13eade..5660fc2 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -134,8 +134,7 @@ Thread::join()		// Wait for this thread to end
 		; // posixError("join", error, thread_id);	// Translate and report the error
 
 	thread_latch.enter();
-	Thread* thread = Thread::find(thread_id);
-	if (thread)
+	if (Thread::find(thread_id) == this)	// Unless a new thread already has its id
 	{
 		int erased = threads.erase(thread_id);
 		assert(erased == 1);
-- 
2.43.0


From 43f9c605a1be52096e3277f038045458d60a28b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 46/90] fix: UTF8Len must not read beyond the end of a
 truncated sequence

---
 include/char_encoding.h | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index bc3f613..6ea1ed5 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -155,30 +155,19 @@ UTF8CorrectLen(UTF8 c)
 inline int
 UTF8Len(const UTF8* cp)	// REVISIT: Add an error callback pointer here?
 {
-	switch (int len = UTF8CorrectLen(*cp))
-	{	// This reminds me of Duff's Device :)
-	case 6: if (UTF8Is1st(cp[5])) goto illegal;
-		// Fall through
-	case 5: if (UTF8Is1st(cp[4])) goto illegal;
-		// Fall through
-	case 4: if (UTF8Is1st(cp[3])) goto illegal;
-		// Fall through
-	case 3: if (UTF8Is1st(cp[2])) goto illegal;
-		// Fall through
-	case 2: if (UTF8Is1st(cp[1])) goto illegal;
-		// Fall through
-	case 1:
+	int	len = UTF8CorrectLen(*cp);
+	int	got = 1;
+
+	while (got < len && UTF8Is2nd(cp[got]))	// Don't look past a byte that doesn't belong
+		got++;
+	if (got == len)
 		return len;
-	case 0:
-	default:					// Cannot happen, but keep the compiler happy
-	illegal:
 #if defined(UTF8_ASSERT)
-		assert(!"Illegal or unsupported UTF-8 sequence");
-		return 0;
+	assert(!"Illegal or unsupported UTF-8 sequence");
+	return 0;
 #else
-		return 1;		// Use a replacement character
+	return 1;		// Use a replacement character
 #endif
-	}
 }
 
 inline UCS4
-- 
2.43.0


From 026eedc6263ddccc87b34ab50a582cd7984edb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 47/90] fix: UTF8Backup must step over a truncated sequence as
 UTF8Get does

---
 include/char_encoding.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 6ea1ed5..918c6be 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -238,8 +238,8 @@ UTF8Backup(const UTF8* cp, const UTF8* limit = 0)
 	for (const UTF8* sp = cp-1; sp >= limit; --sp)	// Backup to the limit
 		if (UTF8Is1st(*sp))			// Found the start char
 		{
-			if (UTF8CorrectLen(*sp) >= cp-sp)
-				return sp;		// Legal prefix (at least) of a UTF8 sequence
+			if (UTF8Len(sp) >= cp-sp)
+				return sp;		// A UTF8 sequence that reaches to here (at least)
 			break;	// Illegal, backup 1 byte if this backup won't consume all bytes scanned
 		}
 	return cp-1;	// No start char (valid 1st byte) found
-- 
2.43.0


From b71d742e67e27f13cdbeccace6b2ef835d38c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 48/90] fix: UTF8PutPaddedZero must use the lead byte for its
 length

---
 include/char_encoding.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 918c6be..84c7b86 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -251,7 +251,7 @@ UTF8PutPaddedZero(UTF8*& cp, int length)
 	assert(length >= 0 && length <= 6);
 	if (length > 1)
 	{
-		*cp++ = "\x0\xC0\xE0\xF0\xF8\xFC"[length];	// Put lead byte with zero payload
+		*cp++ = "\0\0\xC0\xE0\xF0\xF8\xFC"[length];	// Put lead byte with zero payload
 		while (--length > 0)
 			*cp++ = 0x80;				// Put trailing bytes with zero payload
 	}
-- 
2.43.0


From 3bae6ed9ca2d1cea008ca0bf5212d226c51b8ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 49/90] fix: UCS4Digit must reach its special cases

---
 src/char_encoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/char_encoding.cpp b/src/char_encoding.cpp
index 5070720..29fb87d 100644
--- a/src/char_encoding.cpp
+++ b/src/char_encoding.cpp
@@ -115,7 +115,7 @@ UCS4Digit(UCS4 ch)
 	)
 	{
 		if (ch < rp->low)
-			return -1;		/* Short circuit */
+			break;			/* Short circuit */
 		if (ch <= rp->high)
 		{
 			last_memo = rp-UCS4_DigitRanges;
-- 
2.43.0


From ce2262f0b7ae58be535c1f6bbb8d4ec5da9e12c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 50/90] fix: the title case of a title case letter is that
 letter

---
 src/case_conversions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/case_conversions.c b/src/case_conversions.c
index 6a434bc..a3e9101 100644
--- a/src/case_conversions.c
+++ b/src/case_conversions.c
@@ -834,12 +834,16 @@ static struct
 } UnicodeToTitle[] =
 {
       {	0x01C4,	1 },
+      {	0x01C5,	0 },
       {	0x01C6,	-1 },
       {	0x01C7,	1 },
+      {	0x01C8,	0 },
       {	0x01C9,	-1 },
       {	0x01CA,	1 },
+      {	0x01CB,	0 },
       {	0x01CC,	-1 },
       {	0x01F1,	1 },
+      {	0x01F2,	0 },
       {	0x01F3,	-1 }
 };
 #define	UCS4NumTitleChars (sizeof(UnicodeToTitle)/sizeof(UnicodeToTitle[0]))
-- 
2.43.0


From b7d755298279117bc89b452bb5918b5b74f3bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 51/90] fix: NulGuardedCharPtr must move back by a negative
 amount

---
 include/char_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index 182c29c..db91256 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -71,7 +71,7 @@ public:
 	NulGuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance slowly
-				if (i < 0) s -= i;		// Or backup suddenly
+				if (i < 0) s += i;		// Or backup suddenly
 				data = s; return *this;
 			}
 	NulGuardedCharPtr	operator+(int i){ NulGuardedCharPtr t(*this); t += i; return t; }
-- 
2.43.0


From 6d6d9b1caef055d67c6c3210fbfcdb04fa078f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 52/90] fix: GuardedCharPtr must not advance beyond the Nul

---
 include/char_ptr.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index db91256..24c7e92 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -109,10 +109,8 @@ public:
 	GuardedCharPtr&	operator+=(int i)
 			{	const char* s = data;
 				while (i > 0 && *s != '\0') { s++; i--;}// Advance
-				if (-i > s-origin)	// Or backup
-					s = origin;	// Either return as far as the origin
-				else
-					s += i;		// or backup as far as requested
+				if (i < 0)		// Or backup
+					s = i < origin-s ? origin : s+i;	// as far as requested, but not before the origin
 				data = s; return *this;
 			}
 };
-- 
2.43.0


From 33e0348c2e59f71cf5f534e5f4a91a9b5866691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 53/90] fix: GuardedCharPtr must guard every way of retreating

---
 include/char_ptr.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/char_ptr.h b/include/char_ptr.h
index 24c7e92..1e6aacf 100644
--- a/include/char_ptr.h
+++ b/include/char_ptr.h
@@ -113,6 +113,23 @@ public:
 					s = i < origin-s ? origin : s+i;	// as far as requested, but not before the origin
 				data = s; return *this;
 			}
+	GuardedCharPtr	operator+(int i){ GuardedCharPtr t(*this); t += i; return t; }
+	GuardedCharPtr	operator-=(int i){ return *this += -i; }
+	GuardedCharPtr	operator-(int i){ GuardedCharPtr t(*this); t += -i; return t; }
+
+	// incr/decr functions:
+	GuardedCharPtr&	preincr()	{ !at_eof() && data++; return *this; }
+	GuardedCharPtr	postincr()	{ GuardedCharPtr save(*this); ++*this; return save; }
+	GuardedCharPtr&	predecr()	{ !at_bot() && data--; return *this; }
+	GuardedCharPtr	postdecr()	{ GuardedCharPtr save(*this); --*this; return save; }
+
+	// incr/decr operators:
+	GuardedCharPtr	operator++(int)	{ return postincr(); }
+	GuardedCharPtr&	operator++()	{ return preincr(); }
+	GuardedCharPtr	operator--(int)	{ return postdecr(); }
+	GuardedCharPtr&	operator--()	{ return predecr(); }
+	long		operator-(GuardedCharPtr s)	{ return data-s.data; }
+	long		operator-(const char* s)	{ return data-s; }
 };
 
 #endif
-- 
2.43.0


From ba52bc97ec0ebc3a65da78ae5dbc0922cd489feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 54/90] fix: a padded zero is not the end of a guarded UTF-8
 pointer's text

---
 include/utf8_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index 9aa9968..e744640 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -23,7 +23,7 @@ public:
 			{ data = s.data; return *this; }
 
 	bool		at_eof()
-			{ return this->operator*() == '\0'; }
+			{ return *data == '\0'; }	// A zero character padded to more bytes isn't the end
 
 	UCS4		operator*()		// Dereference to char under the pointer
 			{ const UTF8* s = data; return UTF8Get(s); }
-- 
2.43.0


From d4d4b736b02db30d2109a9ef5ef58e93573db95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 55/90] fix: GuardedUTF8Ptr must not look before its origin

---
 include/utf8_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index e744640..f8c1aa4 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -80,10 +80,10 @@ public:
 	GuardedUTF8Ptr&	operator+=(int i)
 			{	const UTF8* s = data;
 				while (i > 0 && *s != '\0') { UTF8Get(s); i--;}		// Advance
-				while (i < 0 && s > origin) { s = UTF8Backup(s); i++;}	// Or backup
+				while (i < 0 && s > origin) { s = UTF8Backup(s, origin); i++;}	// Or backup
 				data = (const UTF8*)s; return *this;
 			}
-	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data)); return *this; }
+	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data, origin)); return *this; }
 	bool		at_bot()
 			{ return data == origin; }
 };
-- 
2.43.0


From 68d4d04fb8bd3dc5a914bd394c012e013057b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 56/90] fix: GuardedUTF8Ptr must guard every way of retreating

---
 include/utf8_ptr.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/utf8_ptr.h b/include/utf8_ptr.h
index f8c1aa4..db8ffe6 100644
--- a/include/utf8_ptr.h
+++ b/include/utf8_ptr.h
@@ -83,7 +83,23 @@ public:
 				while (i < 0 && s > origin) { s = UTF8Backup(s, origin); i++;}	// Or backup
 				data = (const UTF8*)s; return *this;
 			}
+	GuardedUTF8Ptr	operator+(int i){ GuardedUTF8Ptr t(*this); t += i; return t; }
+	GuardedUTF8Ptr	operator-=(int i){ return *this += -i; }
+	GuardedUTF8Ptr	operator-(int i){ GuardedUTF8Ptr t(*this); t += -i; return t; }
+
+	// incr/decr functions:
+	GuardedUTF8Ptr&	preincr()	{ !at_eof() && UTF8Get(data); return *this; }
+	GuardedUTF8Ptr	postincr()	{ GuardedUTF8Ptr save(*this); ++*this; return save; }
 	GuardedUTF8Ptr&	predecr()	{ !at_bot() && (data = (const UTF8*)UTF8Backup(data, origin)); return *this; }
+	GuardedUTF8Ptr	postdecr()	{ GuardedUTF8Ptr save(*this); --*this; return save; }
+
+	// incr/decr operators:
+	GuardedUTF8Ptr	operator++(int)	{ return postincr(); }
+	GuardedUTF8Ptr&	operator++()	{ return preincr(); }
+	GuardedUTF8Ptr	operator--(int)	{ return postdecr(); }
+	GuardedUTF8Ptr&	operator--()	{ return predecr(); }
+	long		operator-(GuardedUTF8Ptr s)	{ return data-s.data; }
+	long		operator-(const char* cp)	{ return data-cp; }
 	bool		at_bot()
 			{ return data == origin; }
 };
-- 
2.43.0


From 6a6f7fd1fe5b7ffff0ff3e7ef4e7b147b4082e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 57/90] fix: Pegexp alternates that fail must fail at their
 start

The caller skips the atom that failed, e.g. in ?|a|bc, and skipped part of the last alternate.
---
 include/pegexp.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 16176e6..714869a 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -645,7 +645,6 @@ protected:
 			{
 				state = start_state;
 				state.pattern = next_alternate+1;
-				start_state.pattern = next_alternate+1;
 
 				// Work through all atoms of the current alternate:
 				do {
-- 
2.43.0


From 4783981909710f396bb7fe573e56ac8df6f6d178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 58/90] fix: Pegexp must skip the operand of a repetition
 operator

In ?+ab and !+ab only the + was skipped. Where the operand is missing there is nothing to skip.
---
 include/pegexp.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/pegexp.h b/include/pegexp.h
index 714869a..5f72bb4 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -793,11 +793,19 @@ protected:
 				skip_atom(pattern);
 			break;
 
+		case '?':	// Zero or one
+		case '*':	// Zero or more
+		case '+':	// One or more
 		case '&':	// Positive lookahead assertion
 		case '!':	// Negative lookahead assertion
 			skip_atom(pattern);
 			break;
 
+		case '\0':	// End of expression
+		case ')':	// End of group
+			pattern--;	// There's no atom to skip
+			break;
+
 		// Extended commands:
 		case '~':
 		case '`':	// Perhaps used for binary codes?
-- 
2.43.0


From f47e839a63226465e67b7fd142f6f25d9a4c4adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 59/90] fix: Pegexp must skip all the alternates of an operand

In !|a|b and ?|a|b only the first was skipped.
---
 include/pegexp.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 5f72bb4..e92be04 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -655,10 +655,10 @@ protected:
 				if (matched)
 				{		// This alternate matched, skip to the end of the alternates
 					while (*state.pattern == '|')	// There's another alternate
-						skip_atom(state.pattern);
+						skip_alternate(state.pattern);
 					break;
 				}
-				next_alternate = skip_atom(next_alternate);
+				next_alternate = skip_alternate(next_alternate);
 				// Undo new captures on failure of an alternate
 				context->rollback_capture(initial_captures);
 			}
@@ -756,6 +756,15 @@ protected:
 		pattern++;
 	}
 
+	// Skip to the next alternate, or past the last one
+	const PatternP	skip_alternate(PatternP& pattern)
+	{
+		pattern++;
+		while (*pattern != '|' && *pattern != ')' && *pattern != '\0')
+			skip_atom(pattern);
+		return pattern;
+	}
+
 	const PatternP	skip_atom(PatternP& pattern)
 	{
 		switch (char rc = *pattern++)
@@ -788,9 +797,10 @@ protected:
 				pattern++;
 			break;
 
-		case '|':	// First or next alternate; skip to next alternate
-			while (*pattern != '|' && *pattern != ')' && *pattern != '\0')
-				skip_atom(pattern);
+		case '|':	// Alternates; skip all of them
+			pattern--;
+			while (*pattern == '|')
+				skip_alternate(pattern);
 			break;
 
 		case '?':	// Zero or one
-- 
2.43.0


From 1648046ddc434919ae60388f644f2ba1cbb005d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 60/90] fix: an empty Pegexp alternate must not consume the end
 of its group

In +(|a|)b the b was taken to be part of the alternate.
---
 include/pegexp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index e92be04..e1af390 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -547,8 +547,8 @@ protected:
 		switch (rc = *state.pattern++)
 		{
 		case '\0':	// End of expression
-			state.pattern--;
 		case ')':	// End of group
+			state.pattern--;
 			matched = true;
 			break;
 
-- 
2.43.0


From cfd5c8013e67fd18eea412c566d6be0c4bf18a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:37 +0000
Subject: [PATCH 61/90] fix: islower and isupper need to be defined for UCS4 as
 isalpha is

Pegexp's \\L and \\U passed a UCS4 to the ctype functions, which index a table of 256 or so entries.
---
 include/char_encoding.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/char_encoding.h b/include/char_encoding.h
index 84c7b86..bc4e437 100644
--- a/include/char_encoding.h
+++ b/include/char_encoding.h
@@ -87,6 +87,8 @@ inline bool	isalnum(UCS4 c) { return UCS4IsAlphabetic(c) || UCS4IsDecimal(c); }
 inline UCS4	toupper(UCS4 c) { return UCS4ToUpper(c); }
 inline UCS4	tolower(UCS4 c) { return UCS4ToLower(c); }
 inline bool	isspace(UCS4 c) { return UCS4IsWhite(c); }
+inline bool	islower(UCS4 c) { return UCS4ToUpper(c) != c; }
+inline bool	isupper(UCS4 c) { return UCS4ToLower(c) != c; }
 
 inline bool
 UCS4IsIllegal(UCS4 ucs4)	// Does this UCS4 character encode an illegal utf-8 byte?
-- 
2.43.0


From aefbf5f99482b2dc9006d2b8e484337b8a8cd6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 62/90] fix: an escaped character in a Pegexp class can be an
 end of a range

---
 include/pegexp.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index e1af390..6891a7d 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -454,6 +454,12 @@ protected:
 		return rc;
 	}
 
+	// Letters that stand for a property, when escaped. All other escapes are literals
+	static bool	is_property(char esc)
+	{
+		return esc != '\0' && 0 != strchr("adhLUsw", esc);
+	}
+
 	bool		char_property(PatternP& pattern, Char ch)
 	{
 		switch (char32_t esc = *pattern++)
@@ -490,8 +496,7 @@ protected:
 			Char	c1;
 
 			// Handle actual properties, not other escapes
-			char	esc = state.pattern[1];
-			if (*state.pattern == '\\' && isalpha(esc) && esc != 'x' && esc != 'u')
+			if (*state.pattern == '\\' && is_property(state.pattern[1]))
 			{
 				state.pattern++;
 				if (char_property(state.pattern, ch))
@@ -779,6 +784,11 @@ protected:
 				pattern++;
 			while (*pattern != '\0' && *pattern != ']')
 			{
+				if (*pattern == '\\' && is_property(pattern[1]))
+				{	// Not the start of a range
+					pattern += 2;
+					continue;
+				}
 				(void)literal_char(pattern);
 				if (*pattern == '-')
 				{
-- 
2.43.0


From b1aa186907ca3163b79009ea480abf147f333bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 63/90] fix: a Pegexp escape must not be read beyond the end of
 the pattern

---
 include/pegexp.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 6891a7d..0fe8c6e 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -402,7 +402,9 @@ protected:
 		if (rc != '\\')
 			return rc;
 		rc = *pattern++;
-		if (rc >= '0' && rc <= '7')		// Octal
+		if (rc == '\0')
+			pattern--;			// Nothing follows the backslash
+		else if (rc >= '0' && rc <= '7')	// Octal
 		{
 			rc -= '0';
 			if (*pattern >= '0' && *pattern <= '7')
@@ -416,14 +418,16 @@ protected:
 				return 0;
 			if ((braces = (*pattern == '{')))
 				pattern++;
-			rc = unhex(*pattern++);
-			if (rc < 0)
+			int first = unhex(*pattern);
+			if (first < 0)
 				return 0;		// Error: invalid first hex digit
-			int second = unhex(*pattern++);
+			rc = first;
+			int second = unhex(*++pattern);
 			if (second >= 0)
+			{
 				rc = (rc << 4) | second;
-			else
-				pattern--;		// Invalid second hex digit
+				pattern++;
+			}
 			if (braces && *pattern == '}')
 				pattern++;
 		}
-- 
2.43.0


From 2716326ea55c1e7b62768bc690931af81e0c6d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 64/90] fix: a Pegexp atom that fails at the end of the input
 must be reported whole

---
 include/pegexp.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index 0fe8c6e..fd4a6a6 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -483,18 +483,13 @@ protected:
 
 	bool		char_class(State& state)
 	{
-		if (state.source.at_eof())		// End of input never matches a char_class
-			return false;
-
-		State	start_state(state);
-		start_state.pattern--;
-
 		bool	negated;
 		if ((negated = (*state.pattern == '^')))
 			state.pattern++;
 
 		bool	in_class = false;
-		Char	ch = state.source.get_char();
+		bool	eof = state.source.at_eof();	// End of input never matches a char_class
+		Char	ch = eof ? 0 : state.source.get_char();
 		while (*state.pattern != '\0' && *state.pattern != ']')
 		{
 			Char	c1;
@@ -523,7 +518,7 @@ protected:
 			state.pattern++;
 		if (negated)
 			in_class = !in_class;
-		return in_class;
+		return in_class && !eof;
 	}
 
 	// Null extension; treat extensions like literal characters
@@ -582,8 +577,11 @@ protected:
 			break;
 
 		case '\\':	// Escaped literal char
-			matched = !state.source.at_eof() && char_property(state.pattern, state.source.get_char());
+		{
+			bool	eof = state.source.at_eof();
+			matched = char_property(state.pattern, eof ? 0 : state.source.get_char()) && !eof;
 			break;
+		}
 
 		case '[':	// Character class
 			matched = char_class(state);
-- 
2.43.0


From cf72ef3f68347690af21d57b2befceb24ff638c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 65/90] fix: a labelled Pegexp atom must capture the text of
 that atom only

---
 include/pegexp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pegexp.h b/include/pegexp.h
index fd4a6a6..a60fea9 100644
--- a/include/pegexp.h
+++ b/include/pegexp.h
@@ -750,7 +750,7 @@ protected:
 			if (context->capture_disabled == 0)
 				(void)context->capture(
 					name, name_end-name,
-					context->match_result(start_state, state),
+					Match(start_state, state),
 					context->repetition_nesting > 0
 				);
 		}
-- 
2.43.0


From b5c69eb50667178634bc08f57b2ea2e351a108a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 66/90] fix: PegContextNoCapture must use States as Pegexp does

---
 include/peg.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index 1a28516..c817217 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -60,6 +60,7 @@ class PegContextNoCapture
 {
 public:
 	using	Match = _Match;
+	using	State = typename Match::State;
 	using	Source = typename Match::Source;
 	using	PegexpT = PegPegexp<PegContextNoCapture>;
 	using	Rule = PegRuleNoCapture<PegexpT>;
@@ -92,11 +93,11 @@ public:
 	// When an atom of a Pegexp fails, the atom (pointer to start and end) and Source location are passed here
 	void		record_failure(PatternP op, PatternP op_end, Source location) {}
 
-	Match		match_result(Source from, Source to)	// Capture the range of text
+	Match		match_result(State from, State to)	// Capture the range of text
 			{ return Match(from, to); }
 
-	Match		match_failure(Source at)
-			{ return Match(at, Source()); }
+	Match		match_failure(State at)
+			{ return Match(at, at); }
 
 	PegT*		peg;
 	PegContextNoCapture* 	parent;
-- 
2.43.0


From 572acbec0c7e866b36a7dc84463f4b71e2673582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 67/90] fix: Peg::lookup must compare names in the order the
 rules are sorted

---
 include/peg.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/peg.h b/include/peg.h
index c817217..748fbf4 100644
--- a/include/peg.h
+++ b/include/peg.h
@@ -281,11 +281,11 @@ public:
 			[](const void* key, const void* r2) {
 				const char*	key_name = (const char*)key;
 				const char*	rule_name = ((const Rule*)r2)->name;
-				int		len = strlen(rule_name);
+				int		len = strcspn(key_name, ">");	// The name in a call ends with >
 
 				int		cval = strncmp(key_name, rule_name, len);
-				if (cval == 0 && (key_name[len] != '>' && key_name[len] != '\0'))
-					cval = 1;	// This rule has a shortened version of this key
+				if (cval == 0 && rule_name[len] != '\0')
+					cval = -1;	// This key is a shortened version of this rule's name
 				return cval;
 			}
 		);
-- 
2.43.0


From fa1173af101302cf042f6394155655b39b1c86d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 68/90] fix: a Peg rule captures a name, not every name that
 begins with it

---
 include/peg_ast.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index 592a16a..a8bd866 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -104,8 +104,13 @@ public:
 		if (!captures)
 			return false;
 		for (int i = 0; captures[i]; i++)
-			if (0 == strncmp(captures[i], label, strlen(captures[i])))
+		{
+			size_t	len = strlen(captures[i]);
+			if (0 == strncmp(captures[i], label, len)
+			 && !isalnum(label[len])
+			 && label[len] != '_')	// The whole label must match, not just the start
 				return true;
+		}
 		return false;
 	}
 };
-- 
2.43.0


From 1d3f1aed876c5681d361064b83493998e2a0fd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 69/90] fix: a Peg parse that fails must say where and why

---
 include/peg_ast.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index a8bd866..fb48fa9 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -236,7 +236,11 @@ public:
 	}
 
 	Match		match_failure(State at)
-	{ return Match(at, at); }
+	{
+		if (parent == 0)	// Say how far we got, and why not further
+			return Match(Variant(), furthermost_success, failures);
+		return Match(at, at);
+	}
 
 #if defined(PEG_TRACE)
 	int		depth()
-- 
2.43.0


From 57889edb523828b172e3097121cc549a318fbf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 70/90] fix: PegContext must roll back only the captures that
 failed

---
 include/peg_ast.h | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/peg_ast.h b/include/peg_ast.h
index fb48fa9..3c5fd53 100644
--- a/include/peg_ast.h
+++ b/include/peg_ast.h
@@ -163,18 +163,20 @@ public:
 		if (ast.contains(key))
 		{		// There are previous captures under this name
 			existing = ast[key];
+			undo.push({key, existing});
 			if (existing.type() != Variant::VarArray)
 				existing = Variant(&existing, 1);	// Convert it to an array
 			VariantArray va = existing.as_variant_array();
 			va += value;		// This Unshares va from the entry stored in the map, so
 			ast.put(key, va);	// replace it with this value
-			existing = ast[key];
 		}
 		else	// Insert the match as the first element in an array, or just as itself:
+		{
+			undo.push({key, Variant()});
 			ast.insert(key, in_repetition ? Variant(&value, 1) : value);
+		}
 
-		num_captures++;
-		return 0;
+		return ++num_captures;
 	}
 
 	int		capture_count() const
@@ -182,18 +184,17 @@ public:
 		return num_captures;
 	}
 
-	// The grammar should not capture anything that rolls back except to zero, unless on failure:
+	// Undo the most recent captures, restoring what was captured under the same name before each
 	void		rollback_capture(int count)
 	{
-		if (count >= num_captures)
-			return;
-		if (count == 0)
-		{		// We can rollback to zero, but not partway
-			ast.clear();
-			num_captures = 0;
-			return;
+		for (; num_captures > count; num_captures--)
+		{
+			Undo	last = undo.pull();
+			if (last.previous.type() == Variant::None)
+				ast.remove(last.key);
+			else
+				ast.put(last.key, last.previous);
 		}
-		printf("REVISIT: Not rolling back to %d from %d\n", count, num_captures);
 	}
 
 	void		record_failure(PatternP op, PatternP op_end, Source location)
@@ -272,6 +273,12 @@ protected:
 	int		num_captures;
 	StrVariantMap	ast;
 
+	struct Undo {		// What to restore when a capture is rolled back
+		StrVal		key;
+		Variant		previous;	// None if this key was not present
+	};
+	Array<Undo>	undo;		// One for each capture
+
 	// The next two are populated only on the outermost Context, to be returned from the parse
 	Source		furthermost_success;	// Source location of the farthest location the parser reached
 	PegFailures	failures;	// A Failure for each atom tried at furthermost_success location
-- 
2.43.0


From cca2b538d8d3b384722df0f53001ef4712cd6451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 71/90] fix: a regex must continue after the end of a named
 group

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 56d5835..71fdc96 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -397,7 +397,7 @@ next:
 		thread.station = instr.next;
 		TRACK(("\t\tthread %d saves end %d=%d\n", thread.thread_number, instr.capture_number, offset));
 		thread.result = thread.result.captureSet(instr.capture_number*2+1, offset);
-		break;
+		goto next;
 
 	case RxOp::RxoZero:
 		thread.result.counterPushZero(offset);
-- 
2.43.0


From 3010d234b836c3970ce8938a830c23decc9e8739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 72/90] fix: a regex negative lookahead must continue from
 where it started

---
 rx/rxmatch.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 71fdc96..cd0347b 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -433,13 +433,14 @@ next:
 	{
 		TRACK(("\t\tthread %d evaluating negative lookahead at %d, text %d '%c'\n", thread.thread_number, thread.station, offset, target[offset]&0xFF));
 		RxMatch		match(*this);
-		RxResult	result = match.matchAt(instr.next, offset);	// REVISIT: Arrange to not keep captures here
+		StrValIndex	lookahead_offset = offset;	// matchAt advances this
+		RxResult	result = match.matchAt(instr.next, lookahead_offset);	// REVISIT: Arrange to not keep captures here
 
 		if (!result)
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt);
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
-- 
2.43.0


From 4e5985d4a569ab570f558b6d9f6ae41265ea2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 73/90] fix: RxProgram must delete its array of code as an
 array

---
 rx/rxmatch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index cd0347b..a9611c3 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -132,7 +132,7 @@ RxProgram::RxProgram(const char* _nfa, bool take_ownership)
 
 RxProgram::~RxProgram()
 {
-	if (nfa && nfa_owned) delete(nfa);
+	if (nfa && nfa_owned) delete[] nfa;
 }
 
 StrVal
-- 
2.43.0


From 9b6c58701fe6c5c41f4ba70c55719c1f13ecc198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 74/90] fix: a regex match must keep threads that differ in
 their counters, and only those

Threads with different counts were dropped as duplicates, so /(ab){2}c/ did not match
abababc; stations reached through a Jump were not checked, so there could be more threads
than stations; and more than 12 consecutive splits (13 alternates, for example) aborted.
---
 rx/rxmatch.cpp | 193 +++++++++++++++++++++++--------------------------
 rx/strregex.h  |   3 +-
 2 files changed, 92 insertions(+), 104 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index a9611c3..7051ec5 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -6,6 +6,7 @@
  */
 #include	<strregex.h>
 #include	<cstring>
+#include	<set>
 #include	<utility>
 
 #ifdef	TRACK_RESULTS
@@ -39,9 +40,10 @@ public:
 	int		counterNum() const { return counters_used/2; }
 	int		counterGet(int i) const { return reserved() ? values[counterBase()+counters_used - i*2 - 1] : 0; }
 	void		counterPushZero(StrValIndex offset);
-	StrValIndex 	counterIncr(StrValIndex offset);
+	StrValIndex 	counterIncr(StrValIndex offset, StrValIndex limit);
 	void		counterPop();
 	const RxResult::Counter	counterTop();
+	const RxResult::Counter	counter(int i) const;	// The ith counter from the bottom of the stack
 
 	int		captureMax() const;
 	StrValIndex 	capture(int index);
@@ -89,11 +91,15 @@ private:
 	RxResult	result;			// Result from the successful thread
 
 	// Concurrent threads of execution:
-	Thread*		current_threads;	// The threads we're currently evaluating
-	RxStationID	current_count;		// How many of the above are populated
-	Thread*		next_threads;		// The threads that lead on from here
-	RxStationID	next_count;		// How many of the above are populated
-	void		addthread(Thread thread, StrValIndex offset, StrValIndex *shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed = 0);
+	// There is normally no more than one thread per Station, but threads which have different counters are different
+	std::vector<Thread>	current_threads;	// The threads we're currently evaluating
+	std::vector<Thread>	next_threads;		// The threads that lead on from here
+
+	// Where the threads that lead on from here have been, and with what counters. Cleared for each cycle
+	typedef std::vector<StrValIndex>	Place;
+	std::set<Place>		visited;
+	bool		visit(const Thread& thread, StrValIndex offset);	// Return false if it has already been visited
+	void		addthread(Thread thread, StrValIndex offset);
 };
 
 static int32_t zagzig(int32_t i)
@@ -259,28 +265,16 @@ RxMatch::RxMatch(const RxProgram& _program, StrVal _target)
 : program(_program)
 , target(_target)
 {
-	int	i = program.maxStation();
-	current_threads = new Thread[i];
-	current_count = 0;
-	next_threads = new Thread[i];
-	next_count = 0;
 }
 
 RxMatch::RxMatch(const RxMatch& _tocopy)
 : program(_tocopy.program)
 , target(_tocopy.target)
 {
-	int	i = program.maxStation();
-	current_threads = new Thread[i];
-	current_count = 0;
-	next_threads = new Thread[i];
-	next_count = 0;
 }
 
 RxMatch::~RxMatch()
 {
-	delete[] current_threads;
-	delete[] next_threads;
 }
 
 RxMatch::Thread::Thread()
@@ -303,60 +297,35 @@ RxMatch::Thread::Thread(RxStationID s, RxResult r, const Thread* predecessor)
 int	RxMatch::Thread::next_thread = 0;	// Sequential thread numbering to aid in debug traces
 #endif
 
-void
-RxMatch::addthread(Thread thread, StrValIndex offset, StrValIndex* shunts, StrValIndex num_shunt, StrValIndex max_duplicates_allowed)
-{
-	// Recursion control, prevents stack explosion on empty loops
-	for (int i = 0; i < num_shunt; i++)
-		if (shunts[i] == thread.station)
-		{
-			TRACK(("\t\tthread %d would recurse\n", thread.thread_number));
-			return;
-		}
-	assert(num_shunt < RxMaxNesting);
-	if (num_shunt == RxMaxNesting)
-	{
-		TRACK(("\t\tthread %d would exceed nesting limit\n", thread.thread_number));
-		return;
+bool
+RxMatch::visit(const Thread& thread, StrValIndex offset)
+{
+	Place	place(1, thread.station);
+	for (int i = 0; i < thread.result.counterNum(); i++)
+	{		// All that matters of a counter's offset is whether its current repetition has consumed anything
+		RxResult::Counter	counter = thread.result.counter(i);
+		place.push_back(counter.count);
+		place.push_back(counter.offset == offset);
 	}
-	shunts[num_shunt++] = thread.station;
-
-	int	duplicates = 0;
-	for (int i = 0; i < next_count; i++)
-	{
-		if (next_threads[i].station == thread.station)
-		{
-			if ((max_duplicates_allowed			// Check for an exact duplicate first
-				&& thread.result.countersSame(next_threads[i].result))
-			 || ++duplicates > max_duplicates_allowed)	// Or too many duplicates
-			{
-				// The above condition is not perfect - it fails with 5x nested counted repetitions for example.
-				// Failing to find a solution in such a pathological case doesn't bother me.
-				// Should we have a policy of deleting the duplicate with the lowest count?
+	return visited.insert(place).second;
+}
 
-#ifdef TRACK_RESULTS
-				TRACK(("\t\tthread %d at %d is a duplicate", thread.thread_number, thread.station));
-				if (thread.result.hasCounter()) TRACK((" (count %d)", thread.result.counterTop().count));
-				TRACK((" of thread %d", next_threads[i].thread_number));
-				if (next_threads[i].result.hasCounter())
-				{
-					TRACK((" (counters"));
-					for (int i = 0; i < next_threads[i].result.counterNum(); i++)
-						TRACK((" %d", next_threads[i].result.counterGet(i)));
-					TRACK((")"));
-				}
-				TRACK(("\n"));
-#endif
-				return;		// We already have this thread
-			}
-		}
-	}
+void
+RxMatch::addthread(Thread thread, StrValIndex offset)
+{
+	std::vector<Thread>	pending;		// Alternate paths, to be followed when this thread has stopped
 
 	/*
-	 * If the opcode at the new thread won't consume text, evaluate it either by looping (tail recursion) or a recursive call
+	 * If the opcode at the new thread won't consume text, evaluate it by looping until it will.
+	 * Don't go where an earlier (and so preferred) thread has already gone; this also stops empty loops.
 	 */
 	RxDecoded	instr;
 next:
+	if (!visit(thread, offset))
+	{
+		TRACK(("\t\tthread %d at %d is a duplicate\n", thread.thread_number, thread.station));
+		goto stop;
+	}
 	program.decode(thread.station, instr);
 	switch (instr.op)
 	{
@@ -382,10 +351,10 @@ next:
 		goto next;
 
 	case RxOp::RxoSplit:
-		// REVISIT: For non-greedy repetition, we need these addthread calls in opposite order (same for RxoCount)
-		addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt);
-		addthread(Thread(instr.next, thread.result, &thread), offset, shunts, num_shunt);
-		break;
+		// REVISIT: For non-greedy repetition, we need these threads in opposite order (same for RxoCount)
+		pending.push_back(Thread(instr.next, thread.result, &thread));
+		thread = Thread(instr.alternate, thread.result);
+		goto next;
 
 	case RxOp::RxoCaptureStart:
 		thread.station = instr.next;
@@ -408,24 +377,25 @@ next:
 	{
 		RxResult::Counter	previous = thread.result.counterTop();
 
-		short	counter = thread.result.counterIncr(offset);
+		// When there is no maximum, counting on beyond the minimum makes no difference
+		short	counter = thread.result.counterIncr(offset, instr.repetition.max ? instr.repetition.max : instr.repetition.min);
 
 		// Don't repeat unless the offset has increased since the last repeat (instead, just continue with next).
 		if (previous.offset == offset)
 			TRACK(("\t\tRepetition at shunt %d did not proceed from offset %d\n", thread.station, offset));
 
-		if ((counter <= instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
-		 && previous.offset <= offset)		// Only if we advanced
-			addthread(Thread(instr.alternate, thread.result), offset, shunts, num_shunt, instr.repetition.min);
+		if (counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
+		{
+			Thread	continuation(instr.next, thread.result, &thread);
+			continuation.result.counterPop();	// The continuing thread has no further need of the counter
+			pending.push_back(continuation);
+		}
 
-		if ((counter >= instr.repetition.min || previous.offset == offset)	// Reached minimum count, or will without advancing
-		 && (instr.repetition.max == 0 || counter <= instr.repetition.max))
+		if (counter < instr.repetition.max || instr.repetition.max == 0)	// Greedily repeat
 		{
-			RxResult	continuation = thread.result;
-			continuation.counterPop();	// The continuing thread has no further need of the counter
-			addthread(Thread(instr.next, continuation, &thread), offset, shunts, num_shunt, instr.repetition.min);
+			thread = Thread(instr.alternate, thread.result);
+			goto next;
 		}
-		thread.result.clear();
 	}
 		break;
 
@@ -440,11 +410,11 @@ next:
 		{
 			// Not matched, as requested, so continue with the next instruction at the current offset
 			TRACK(("\t\tthread %d negative lookahead failed, so we can continue at offset %d\n", thread.thread_number, offset));
-			addthread(Thread(instr.alternate, thread.result, &thread), offset, shunts, num_shunt);
+			thread.station = instr.alternate;
+			goto next;
 		}
 		else
 			TRACK(("\t\thread %d negative lookahead succeeded, abandon ship\n", thread.thread_number));
-		thread.result.clear();
 	}
 		break;
 
@@ -462,10 +432,15 @@ next:
 		}
 		TRACK(("\n"));
 #endif
-		assert(next_count < program.maxStation());
-		if (next_count < program.maxStation())
-			next_threads[next_count++] = thread;
-		// else the compiler let us down; silently ignore this possible path and hope something else matches correctly
+		next_threads.push_back(thread);
+	}
+
+stop:
+	if (!pending.empty())
+	{
+		thread = pending.back();
+		pending.pop_back();
+		goto next;
 	}
 };
 
@@ -476,20 +451,19 @@ next:
 const RxResult
 RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 {
-	Thread*		thread_p;
 	RxDecoded	instr;
-	StrValIndex 	shunts[RxMaxNesting];	// Controls recursion in addthread
 
 	// Start where directed, and step forward one character at a time, following all threads until successful or there are no threads left
-	next_count = 0;
-	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset, shunts, 0);
+	next_threads.clear();
+	visited.clear();
+	addthread(Thread(start, RxResult(program.maxCounter(), program.maxCapture())), offset);
 	std::swap(current_threads, next_threads);
-	current_count = next_count;
-	next_count = 0;
-	for (; current_count > 0 && offset <= target.length(); offset++)
+	for (; !current_threads.empty() && offset <= target.length(); offset++)
 	{
-		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, current_count, target.substr(offset, 1).asUTF8()));
-		for (thread_p = current_threads; thread_p < current_threads+current_count; thread_p++)
+		TRACK(("\ncycle at offset %d with %d threads looking at '%s'\n", offset, (int)current_threads.size(), target.substr(offset, 1).asUTF8()));
+		next_threads.clear();
+		visited.clear();
+		for (std::vector<Thread>::iterator thread_p = current_threads.begin(); thread_p != current_threads.end(); ++thread_p)
 		{
 			RxStationID	pc = thread_p->station;
 			program.decode(pc, instr);
@@ -636,7 +610,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 
 			case succeeded:			// This instruction succeeded, so continue with the next one
 				TRACK(("succeeds\n"));
-				addthread(Thread(instr.next, thread_p->result, thread_p), offset+1, shunts, 0);
+				addthread(Thread(instr.next, thread_p->result, &*thread_p), offset+1);
 				break;
 
 			case accepted:			// This thread has matched
@@ -661,8 +635,6 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 		}
 
 		std::swap(current_threads, next_threads);
-		current_count = next_count;
-		next_count = 0;
 	}
 
 	// If we have a result, it's in `result`.
@@ -670,8 +642,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 	// REVISIT: Might it be useful to know on which Station(s) we ran out of input? Or callback to get more?
 
 	// Wipe old result references, we already copied the one we chose:
-	for (thread_p = current_threads; thread_p < current_threads+current_count; thread_p++)
-		thread_p->result.clear();
+	current_threads.clear();
 	return result;
 }
 
@@ -710,13 +681,16 @@ RxCaptures::counterPushZero(StrValIndex offset)
 }
 
 StrValIndex
-RxCaptures::counterIncr(StrValIndex offset)
+RxCaptures::counterIncr(StrValIndex offset, StrValIndex limit)
 {
 	reserve();
 	assert(counters_used > 0);
 	// TRACK(("Incrementing counter %d = %d\n", counters_used-1, values.at(counterBase()+counters_used-1)+1));
 	values.at(counterBase()+counters_used-2) = offset;
-	return ++values.at(counterBase()+counters_used-1);
+	StrValIndex&	count = values.at(counterBase()+counters_used-1);
+	if (count < limit)
+		count++;
+	return count;
 }
 
 void
@@ -737,6 +711,13 @@ RxCaptures::counterTop()
 	return {values.at(counterBase()+counters_used-2), values.at(counterBase()+counters_used-1)};
 }
 
+const RxResult::Counter
+RxCaptures::counter(int i) const
+{
+	assert(i*2 < counters_used);
+	return {values.at(counterBase()+i*2), values.at(counterBase()+i*2+1)};
+}
+
 int
 RxCaptures::captureMax() const
 {
@@ -884,11 +865,11 @@ RxResult::counterPushZero(StrValIndex offset)	// Push a zero counter
 }
 
 StrValIndex
-RxResult::counterIncr(StrValIndex offset)	// Increment and return top counter of stack
+RxResult::counterIncr(StrValIndex offset, StrValIndex limit)	// Increment (up to the limit) and return top counter of stack
 {
 	Unshare();
 	assert(captures);
-	return captures->counterIncr(offset);
+	return captures->counterIncr(offset, limit);
 }
 
 void
@@ -904,3 +885,9 @@ RxResult::counterTop()
 {
 	return captures->counterTop();
 }
+
+const RxResult::Counter
+RxResult::counter(int i) const
+{
+	return captures->counter(i);
+}
diff --git a/rx/strregex.h b/rx/strregex.h
index 5338b53..200c29e 100644
--- a/rx/strregex.h
+++ b/rx/strregex.h
@@ -209,9 +209,10 @@ public:
 	bool		countersSame(RxResult& other) const;
 	int		counterGet(int = 0) const;		// get the nth top counter
 	void		counterPushZero(StrValIndex offset);	// Push a zero counter at this offset
-	StrValIndex	counterIncr(StrValIndex offset);	// Increment and return top counter of stack
+	StrValIndex	counterIncr(StrValIndex offset, StrValIndex limit);	// Increment (up to the limit) and return top counter of stack
 	void		counterPop();		// Discard the top counter of the stack
 	const Counter	counterTop();		// Top counter value, if any
+	const Counter	counter(int i) const;	// The ith counter from the bottom of the stack
 
         int		resultNumber() const;	// Only used for diagnostics
 
-- 
2.43.0


From 9d4b18037d197553fbbaffd61c3d3856f6973d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 75/90] fix: a NUL character is not the end of the text to a
 regex

---
 rx/rxmatch.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 7051ec5..54ddc88 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -492,14 +492,14 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 			case RxOp::RxoAny:			// Any single char
 				// As long as we aren't at the end, all is good
 				// REVISIT: Add except-newline mode behaviour
-				if (ch != 0)
+				if (offset < target.length())
 					break;
 				step_status = eof;
 				break;
 
 			case RxOp::RxoChar:			// A specific UCS4 character
 				// REVISIT: Add case-insensitive mode behaviour
-				if (ch == instr.character)
+				if (offset < target.length() && ch == instr.character)
 					break;
 				step_status = failed;
 				break;
@@ -507,7 +507,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 			case RxOp::RxoCharClass:		// Character class
 			case RxOp::RxoNegCharClass:		// Negated Character class
 			{
-				if (ch == 0)
+				if (offset >= target.length())
 				{
 					step_status = eof;
 					break;
@@ -533,7 +533,7 @@ RxMatch::matchAt(RxStationID start, StrValIndex& offset)
 
 			case RxOp::RxoCharProperty:		// A character with a named Unicode property
 			{
-				if (ch == 0)
+				if (offset >= target.length())
 				{
 					step_status = eof;
 					break;
-- 
2.43.0


From f1b1baf783390d153aa678e048bbb411e67f8363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 76/90] fix: a regex repetition with a minimum of zero may be
 absent

---
 rx/rxmatch.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rx/rxmatch.cpp b/rx/rxmatch.cpp
index 54ddc88..3ab5cca 100644
--- a/rx/rxmatch.cpp
+++ b/rx/rxmatch.cpp
@@ -369,9 +369,21 @@ next:
 		goto next;
 
 	case RxOp::RxoZero:
+	{
+		// If the minimum is zero, there is a path on from the Count that belongs to this Zero
+		RxDecoded	count = instr;
+		for (int nested = 1; nested > 0; )
+		{
+			program.decode(count.next, count);
+			nested += count.op == RxOp::RxoZero ? 1 : count.op == RxOp::RxoCount ? -1 : 0;
+		}
+		if (count.repetition.min == 0)
+			pending.push_back(Thread(count.next, thread.result, &thread));
+
 		thread.result.counterPushZero(offset);
 		thread = Thread(instr.next, thread.result, &thread);
 		goto next;
+	}
 
 	case RxOp::RxoCount:	// This instruction follows a repeated item, so the pre-incremented counter tells how many we've passed
 	{
-- 
2.43.0


From e91381e316fcb362fa19440d14d53542d3b7dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 77/90] fix: a comma after a regex repetition count is not part
 of it

---
 rx/rxcompile.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 9dff646..f051363 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -168,15 +168,15 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			if (!(ok = flush())) break;
 			param = re.substr(++i);
 			min = max = 0;
-			// Find the end of the first number:
-			close = param.find(',');
-			if (close < 0)
-				close = param.find('}'); // Just one number?
+			close = param.find('}');
 			if (close < 0)
 			{
 		bad_repetition:	error_message = "Bad repetition count";
 				break;
 			}
+			// Find the end of the first number:
+			if (param.substr(0, close).find(',') >= 0)
+				close = param.find(',');
 			if (close > 0)
 			{
 				min = param.substr(0, close).asInt32(&int_error, 10, &scanned);
-- 
2.43.0


From 4ef28ce1a56f3a1c8e9a2d1f37d7215a32ec5452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 78/90] fix: regex compilation must stop at an error, and say
 where it is

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index f051363..32bc421 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -113,7 +113,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 
 	ok = func(RxToken(RxOp::RxoStart));
 	if (!ok) error_offset = i;
-	for (; ok && i < re.length(); i++)
+	for (; ok && !error_message && i < re.length(); i++)
 	{
 		switch (ch = re[i])
 		{
-- 
2.43.0


From 4e0e8b980840463fb1c24035e0db8a32c7693499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 79/90] fix: regex repetition counts must not be truncated
 before they are checked

---
 rx/strregex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/strregex.h b/rx/strregex.h
index 200c29e..f2dd4a5 100644
--- a/rx/strregex.h
+++ b/rx/strregex.h
@@ -87,8 +87,8 @@ enum class RxOp: char
 
 struct RxRepetitionRange
 {
-	uint16_t	min;
-	uint16_t	max;	// Zero means no maximum
+	int		min;
+	int		max;	// Zero means no maximum
 };
 
 class	RxToken;	// Passes information between the lexer and the parser
-- 
2.43.0


From 9c7614ad1792cd547e65362a34e0a12da09f0ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 80/90] fix: a regex closing parenthesis with none open must be
 reported

---
 rx/rxcompile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 32bc421..c67931d 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -634,7 +634,7 @@ RxCompiler::compile(char*& nfa)
 				goto str_param;			// This string will be in the names table of RxoStart
 
 			case RxOp::RxoEndGroup:			// End of a group
-				if (nesting <= 0)
+				if (nesting <= 1)	// The whole NFA is at the bottom of the stack
 				{
 					error_message = "Too many closing parentheses";
 					return false;
-- 
2.43.0


From c0bc6110fe21ca040bdf08de9233ac0003c38a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 81/90] fix: regex character escapes contain digits only

---
 rx/rxcompile.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index c67931d..0c9c1e7 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -111,6 +111,16 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				return true;
 			};
 
+	auto		digits = [this](int from, int most, int radix) -> StrVal
+			{	// The digits of a character escape: no sign, white-space or prefix
+				int	n = 0;
+				for (UCS4 d; n < most && from+n < re.length(); n++)
+					if (!((d = re[from+n]) >= '0' && d <= '7')
+					 && !(radix == 16 && ((d >= '8' && d <= '9') || (d >= 'a' && d <= 'f') || (d >= 'A' && d <= 'F'))))
+						break;
+				return re.substr(from, n);
+			};
+
 	ok = func(RxToken(RxOp::RxoStart));
 	if (!ok) error_offset = i;
 	for (; ok && !error_message && i < re.length(); i++)
@@ -216,7 +226,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			case '4': case '5': case '6': case '7':
 				if (!enabled(RxFeature::OctalChar))
 					goto simple_escape;
-				param = re.substr(i, 3);
+				param = digits(i, 3, 8);
 				ch = param.asInt32(&int_error, 8, &scanned);
 				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
 				{
@@ -230,7 +240,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				if (!enabled(RxFeature::HexChar))
 					goto simple_escape;
 				// REVISIT: Support \x{XX}?
-				param = re.substr(++i, 2);
+				param = digits(++i, 2, 16);
 				ch = param.asInt32(&int_error, 16, &scanned);
 				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
 				{
@@ -244,7 +254,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				if (!enabled(RxFeature::UnicodeChar))
 					goto simple_escape;
 				// REVISIT: Support \u{XX}?
-				param = re.substr(++i, 5);
+				param = digits(++i, 5, 16);
 				ch = param.asInt32(&int_error, 16, &scanned);
 				if ((int_error && int_error != STRERR_TRAIL_TEXT) || scanned == 0)
 				{
-- 
2.43.0


From 31c282186f8199266702c88ee4395a91408b9291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 82/90] fix: a regex may not end in a backslash

---
 rx/rxcompile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 0c9c1e7..898cd86 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -213,6 +213,11 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '\\':		// Escape sequence
+			if (i+1 >= re.length())
+			{
+				error_message = "Nothing follows the backslash";
+				break;
+			}
 			switch (ch = re[++i])
 			{
 			case 'b': if (!enabled(RxFeature::CEscapes)) goto simple_escape; ch = '\b'; goto escaped_char;
-- 
2.43.0


From 4c90168fe4a09cbae3e1faa9003bc7a9f554052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 83/90] fix: white-space before a repetition in an extended
 regex must not change what it repeats

---
 rx/rxcompile.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 898cd86..163bfae 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -110,6 +110,18 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				}
 				return true;
 			};
+	auto		flush_atom = [&delayed, &flush]() {
+				// A repetition applies only to the last character
+				if (delayed.length() > 1)
+				{
+					StrVal	last = delayed.tail(1);
+					delayed = delayed.shorter(1);
+					if (!flush())
+						return false;
+					delayed = last;
+				}
+				return flush();
+			};
 
 	auto		digits = [this](int from, int most, int radix) -> StrVal
 			{	// The digits of a character escape: no sign, white-space or prefix
@@ -149,7 +161,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '?':
-			if (!(ok = flush())) break;
+			if (!(ok = flush_atom())) break;
 			if (enabled(RxFeature::AnyIsQuest))
 				ok = func(RxToken(RxOp::RxoAny));	// Shell-style any-char wildcard
 			else
@@ -159,7 +171,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '*':
 			if (!supported(RxFeature::ZeroOrMore))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_atom())) break;
 			if (enabled(RxFeature::ZeroOrMoreAny))
 				ok = func(RxToken(RxOp::RxoAny));
 			ok = func(RxToken(RxOp::RxoRepetition, 0, 0));
@@ -168,14 +180,14 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 		case '+':
 			if (!supported(RxFeature::OneOrMore))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_atom())) break;
 			ok = func(RxToken(RxOp::RxoRepetition, 1, 0));
 			break;
 
 		case '{':
 			if (!supported(RxFeature::CountRepetition))
 				goto simple_char;
-			if (!(ok = flush())) break;
+			if (!(ok = flush_atom())) break;
 			param = re.substr(++i);
 			min = max = 0;
 			close = param.find('}');
-- 
2.43.0


From f0af1eaaa5e993097c67fe2beedf954c58a5add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 84/90] fix: ? in a regex is a feature like the other
 repetitions

---
 rx/rxcompile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 163bfae..7182005 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -161,6 +161,8 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			break;
 
 		case '?':
+			if (!enabled(RxFeature::AnyIsQuest) && !supported(RxFeature::ZeroOrOneQuest))
+				goto simple_char;
 			if (!(ok = flush_atom())) break;
 			if (enabled(RxFeature::AnyIsQuest))
 				ok = func(RxToken(RxOp::RxoAny));	// Shell-style any-char wildcard
-- 
2.43.0


From 24072916c4ce5a6179e101e23a8be887135f7e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 85/90] fix: a regex must be able to use one kind of group when
 another is rejected

---
 rx/rxcompile.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 7182005..58d0248 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -404,7 +404,7 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 			}
 
 			i += 2;	// Skip the '(?'
-			if (supported(RxFeature::Capture) && re[i] == '<')		// Capture
+			if (re[i] == '<' && supported(RxFeature::Capture))		// Capture
 			{
 				param = re.substr(++i);
 				close = param.find('>');
@@ -418,12 +418,12 @@ bool RxCompiler::scanRegex(const std::function<bool(const RxToken& instr)> func)
 				ok = func(RxToken(RxOp::RxoNamedCapture, param));
 				break;
 			}
-			else if (supported(RxFeature::NonCapture) && re[i] == ':')	// Noncapturing group
+			else if (re[i] == ':' && supported(RxFeature::NonCapture))	// Noncapturing group
 			{
 				ok = func(RxToken(RxOp::RxoNonCapturingGroup));
 				break;
 			}
-			else if (supported(RxFeature::NegLookahead) && re[i] == '!') // Negative Lookahead
+			else if (re[i] == '!' && supported(RxFeature::NegLookahead)) // Negative Lookahead
 			{
 				ok = func(RxToken(RxOp::RxoNegLookahead));
 				break;
-- 
2.43.0


From 84f2fc6a65297f25eda2e83374d964fe41259a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:39 +0000
Subject: [PATCH 86/90] fix: regex compilation must allocate as many bytes for
 offsets as it reserves

---
 rx/rxcompile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rx/rxcompile.cpp b/rx/rxcompile.cpp
index 58d0248..7569fd0 100644
--- a/rx/rxcompile.cpp
+++ b/rx/rxcompile.cpp
@@ -755,6 +755,9 @@ RxCompiler::compile(char*& nfa)
 	if (!ok)
 		return false;
 
+	// The station_count is encoded like an offset, but may be larger than any offset is
+	bytes_required += UTF8Len(2*station_count);
+
 	// What is a maximum sufficient size (in bytes) of an offset, if all offsets were the maximum 4 bytes?
 	// Note that zig-zag encoding means an offset may be twice the maximum size of the NFA.
 	StrValIndex	offset_max_bytes = UTF8Len(2*(bytes_required+offsets_required*4));	// Upper limit on offset size
@@ -763,7 +766,7 @@ RxCompiler::compile(char*& nfa)
 	// The maximum size of the nfa is thus (bytes_required+offsets_required*offset_max_bytes)
 	// Now we know this, we know the maximum size of an actual offset and can get close to the actual NFA size.
 	// This might be a tad high as some offsets might shrink, but not by much.
-	bytes_required += offsets_required * UTF8Len(bytes_required+offsets_required*offset_max_bytes);
+	bytes_required += offsets_required * offset_max_bytes;
 	// printf("Allocating %d bytes for the NFA\n", bytes_required);
 
 	nfa = new UTF8[bytes_required+1];
-- 
2.43.0


From 8cabd16b48febb43bd70e22cf64ee4be6432ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 87/90] fix: inserting part of an illegal UTF-8 sequence can
 join it to another part

---
 include/strval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strval.h b/include/strval.h
index 273f028..d55201f 100644
--- a/include/strval.h
+++ b/include/strval.h
@@ -713,9 +713,9 @@ public:
 				Index		addend_length;		// Get length in bytes
 				const char*	ap = addend.asUTF8(addend_length);
 				body->insertBytes(nthChar(pos)-nthChar(0), ap, addend_length);
-				if (mark.char_num > pos)
+				if (mark.char_num >= pos)
 					mark = Bookmark();	// This character has moved
-				num_chars += addend.length();
+				num_chars = body->numChars();		// Parts of an illegal sequence might now be joined
 				return *this;
 			}
 	StrValI&	append(const StrValI& addend)
-- 
2.43.0


From 208b7e1c2ecb77d631c3e4343c344266e3bf4788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 88/90] fix: an element appended to an array may be one of its
 own

---
 include/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/array.h b/include/array.h
index 870a9c5..e11ca87 100644
--- a/include/array.h
+++ b/include/array.h
@@ -233,8 +233,9 @@ public:
 			}
 	ArrayR&		operator+=(const Element& addend)
 			{
+				const Element	held(addend);		// This might be one of our own, and our storage may be replaced
 				Unshare(1);
-				body->insert(offset+num_elements, &addend, 1);
+				body->insert(offset+num_elements, &held, 1);
 				num_elements++;
 				return *this;
 			}
@@ -247,7 +248,7 @@ public:
 	Element		shift()				// remove an element from the start
 			{ assert(num_elements > 0); return delete_at(0); }
 	ArrayR&		unshift(const Element& e)	// Insert an element at the start
-			{ Unshare(1); body->insert(offset, &e, 1); num_elements++; return *this; }
+			{ const Element held(e); Unshare(1); body->insert(offset, &held, 1); num_elements++; return *this; }
 	ArrayR&		insert(Index pos, const ArrayR& addend)
 			{
 				if ((Body*)body == (Body*)addend.body)	// From the same body
-- 
2.43.0


From e7eb23eeaf4c03255ad39ccbd80a61a5a28ce964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 89/90] fix: Array's functional methods must keep the elements
 they visit

---
 include/array.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/array.h b/include/array.h
index e11ca87..45bd082 100644
--- a/include/array.h
+++ b/include/array.h
@@ -326,7 +326,8 @@ public:
 	// Functional methods (these don't mutate or Unshare the subject):
 	const Self&	each(std::function<void(const Element& e)> operation) const
 			{
-				const Element*	dp = asElements();		// Start of our slice
+				const ArrayR	held(*this);			// Visit these elements, even if this array gets changed
+				const Element*	dp = held.asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					operation(*bp);
@@ -335,7 +336,8 @@ public:
 			}
 	bool		all(std::function<bool(const Element& e)> condition) const	// Do all elements satisfy the condition?
 			{
-				const Element*	dp = asElements();		// Start of our slice
+				const ArrayR	held(*this);			// Visit these elements, even if this array gets changed
+				const Element*	dp = held.asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (!condition(*bp))
@@ -344,7 +346,8 @@ public:
 			}
 	bool		any(std::function<bool(const Element& e)> condition) const	// Does any element satisfy the condition?
 			{
-				const Element*	dp = asElements();		// Start of our slice
+				const ArrayR	held(*this);			// Visit these elements, even if this array gets changed
+				const Element*	dp = held.asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -353,7 +356,8 @@ public:
 			}
 	bool		one(std::function<bool(const Element& e)> condition) const	// Exactly one element satisfies the condition
 			{
-				const Element*	dp = asElements();		// Start of our slice
+				const ArrayR	held(*this);			// Visit these elements, even if this array gets changed
+				const Element*	dp = held.asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				bool		found = false;
 				for (const Element* bp = dp; bp < ep; bp++)
@@ -369,7 +373,8 @@ public:
 	// Linear search for an element using a match function
 	int		find(std::function<bool(const Element& e)> match, int after = -1) const
 			{
-				const Element*	dp = asElements();		// Start of our slice
+				const ArrayR	held(*this);			// Visit these elements, even if this array gets changed
+				const Element*	dp = held.asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (after < 0 ? 0 : after+1); bp < ep; bp++)
 					if (match(*bp))
@@ -378,7 +383,8 @@ public:
 			}
 	int		rfind(std::function<bool(const Element& e)> match, int before = -1) const
 			{
-				const Element*	dp = asElements();		// Start of our slice
+				const ArrayR	held(*this);			// Visit these elements, even if this array gets changed
+				const Element*	dp = held.asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp + (before < 0 ? num_elements : before); bp > dp; )
 					if (match(*--bp))
@@ -390,7 +396,8 @@ public:
 	Self		select(std::function<bool(const Element& e)> condition) const
 			{
 				Self	selected;
-				const Element*	dp = asElements();		// Start of our slice
+				const ArrayR	held(*this);			// Visit these elements, even if this array gets changed
+				const Element*	dp = held.asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					if (condition(*bp))
@@ -401,7 +408,8 @@ public:
 			{
 				Result		output((E2*)0, 0, num_elements);// Preallocate correct size
 
-				const Element*	dp = asElements();		// Start of our slice
+				const ArrayR	held(*this);			// Visit these elements, even if this array gets changed
+				const Element*	dp = held.asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					output.append(map1(*bp));
@@ -410,7 +418,8 @@ public:
 	template<typename J> J	inject(const J& start, std::function<J(J&, const Element& e)> injection) const
 			{
 				J	accumulator = start;
-				const Element*	dp = asElements();		// Start of our slice
+				const ArrayR	held(*this);			// Visit these elements, even if this array gets changed
+				const Element*	dp = held.asElements();		// Start of our slice
 				const Element*	ep = dp+num_elements;		// End of our slice
 				for (const Element* bp = dp; bp < ep; bp++)
 					accumulator = injection(accumulator, *bp);
@@ -418,7 +427,8 @@ public:
 			}
 	int		bsearch(std::function<int(const Element& e)> comparator) const
 			{
-				const Element*	dp = asElements();		// Start of our slice
+				const ArrayR	held(*this);			// Visit these elements, even if this array gets changed
+				const Element*	dp = held.asElements();		// Start of our slice
 				Index		l = 0;
 				Index		r = num_elements;
 				while (r > l)
-- 
2.43.0


From 640e9e789be1d94ba75a2511385979fd7a8423e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:22 +0000
Subject: [PATCH 90/90] fix: CowMap's functional methods must visit the entries
 they began with

---
 include/cowmap.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/cowmap.h b/include/cowmap.h
index 731e729..e3d83d7 100644
--- a/include/cowmap.h
+++ b/include/cowmap.h
@@ -102,19 +102,22 @@ public:
 
 	void		each(std::function<void(const Key& k, const Value& v)> operation) const
 			{
-				for (Iter it = begin(); it != end(); it++)
+				const CowMap	held(*this);	// Visit these entries, even if this map gets changed
+				for (Iter it = held.begin(); it != held.end(); it++)
 					operation(it->first, it->second);
 			}
 	bool		all(std::function<bool(const Key& k, const Value& v)> condition) const	// Do all elements satisfy the condition?
 			{
-				for (Iter it = begin(); it != end(); it++)
+				const CowMap	held(*this);	// Visit these entries, even if this map gets changed
+				for (Iter it = held.begin(); it != held.end(); it++)
 					if (!condition(it->first, it->second))
 						return false;
 				return true;
 			}
 	bool		any(std::function<bool(const Key& k, const Value& v)> condition) const	// Does any element satisfy the condition?
 			{
-				for (Iter it = begin(); it != end(); it++)
+				const CowMap	held(*this);	// Visit these entries, even if this map gets changed
+				for (Iter it = held.begin(); it != held.end(); it++)
 					if (condition(it->first, it->second))
 						return true;
 				return false;
@@ -122,7 +125,8 @@ public:
 	bool		one(std::function<bool(const Key& k, const Value& v)> condition) const	// Exactly one element satisfies the condition
 			{
 				bool		found = false;
-				for (Iter it = begin(); it != end(); it++)
+				const CowMap	held(*this);	// Visit these entries, even if this map gets changed
+				for (Iter it = held.begin(); it != held.end(); it++)
 					if (condition(it->first, it->second))
 					{
 						if (found)
@@ -136,7 +140,8 @@ public:
 			{
 				CowMap	selected;
 
-				for (Iter it = begin(); it != end(); it++)
+				const CowMap	held(*this);	// Visit these entries, even if this map gets changed
+				for (Iter it = held.begin(); it != held.end(); it++)
 					if (condition(it->first, it->second))
 						selected.put(it->first, it->second);
 				return selected;
@@ -145,7 +150,8 @@ public:
 	CowMap<V2, K2>	map(std::function<std::pair<K2, V2>(const Key& k, const Value& v)> map1) const
 			{
 				CowMap<V2, K2>	output;
-				for (Iter it = begin(); it != end(); it++)
+				const CowMap	held(*this);	// Visit these entries, even if this map gets changed
+				for (Iter it = held.begin(); it != held.end(); it++)
 					{
 					auto	kv = map1(it->first, it->second);
 					output.put(kv.first, kv.second);
@@ -156,7 +162,8 @@ public:
 	J		inject(const J& start, std::function<J(J&, const Key& k, const Value& v)> injection) const
 			{
 				J	accumulator = start;
-				for (Iter it = begin(); it != end(); it++)
+				const CowMap	held(*this);	// Visit these entries, even if this map gets changed
+				for (Iter it = held.begin(); it != held.end(); it++)
 					accumulator = injection(accumulator, it->first, it->second);
 				return accumulator;
 			}
-- 
2.43.0

