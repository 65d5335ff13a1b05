From 93e41b46462244c612cf2e17927b61cb564f69a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 001/118] fix: List copy assignment left dangling links when
 the assigned list was longer

---
 lib/include/spvgentwo/List.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index a8339bf..0022ca1 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -182,9 +182,9 @@ namespace spvgentwo
 		}
 
 		// left side was longer, destroy rest
-		if(l != le)
+		while (l != le)
 		{
-			l.entry()->destroyList(m_pAllocator);
+			l = erase(l);
 		}
 
 		// right side was longer, emplace
-- 
2.43.0


From 9094ab7e9e43edf82e5cf86bc04941185ba11fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 002/118] fix: Entry::insertBefore did not link the following
 entry back to the new one

---
 lib/include/spvgentwo/Entry.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Entry.h b/lib/include/spvgentwo/Entry.h
index eed12eb..6d8f75f 100644
--- a/lib/include/spvgentwo/Entry.h
+++ b/lib/include/spvgentwo/Entry.h
@@ -167,7 +167,8 @@ namespace spvgentwo
 
 		entry->m_pPrev = m_pPrev;
 		entry->m_pNext = this;
-		
+		m_pPrev = entry;
+
 		return entry;
 	}
 
-- 
2.43.0


From 42c888a7c5b24efa08da702e2b449034fb3da8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 003/118] fix: Entry::remove left stale links in an entry that
 was kept alive for re-insertion

---
 lib/include/spvgentwo/Entry.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/include/spvgentwo/Entry.h b/lib/include/spvgentwo/Entry.h
index 6d8f75f..9a9b748 100644
--- a/lib/include/spvgentwo/Entry.h
+++ b/lib/include/spvgentwo/Entry.h
@@ -211,6 +211,9 @@ namespace spvgentwo
 			next->m_pPrev = m_pPrev;
 		}
 
+		m_pPrev = nullptr;
+		m_pNext = nullptr;
+
 		if (_pAlloc != nullptr)
 		{
 			_pAlloc->destruct(this);
-- 
2.43.0


From c5f59690412a8da27b38ec280ed5b292fe0ec10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 004/118] fix: Vector::resize set the size to the capacity and
 skipped construction within it

---
 lib/include/spvgentwo/Vector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index d09c989..036c593 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -263,7 +263,7 @@ namespace spvgentwo
 	template<class U>
 	inline bool Vector<U>::resize(sgt_size_t _size, const T* _pInitValue)
 	{
-		if ( _size > m_capacity )
+		if ( _size > m_elements ) // grow
 		{
 			if ( reserve(_size) == false )
 			{
@@ -272,14 +272,14 @@ namespace spvgentwo
 
 			if ( _pInitValue == nullptr || stdrep::is_copy_constructible_v<T> == false )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{};
 				}
 			}
 			else if constexpr ( stdrep::is_copy_constructible_v<T> )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{ *_pInitValue };
 				}
@@ -294,7 +294,7 @@ namespace spvgentwo
 			}
 		}
 
-		m_elements = m_capacity;
+		m_elements = _size;
 
 		return true;
 	}
-- 
2.43.0


From ba3beddd5d3e3a7b44125474f539d22b8a835295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 005/118] fix: Vector::assign ignored the request for a start
 position with the default count

---
 lib/include/spvgentwo/Vector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 036c593..aeb99ae 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -314,7 +314,12 @@ namespace spvgentwo
 	template<class U>
 	inline void Vector<U>::assign(const T& _data, sgt_size_t _pos, sgt_size_t _count)
 	{
-		if ( _pos + _count > m_elements )
+		if ( _pos >= m_elements )
+		{
+			return;
+		}
+
+		if ( _count > m_elements - _pos )
 		{
 			_count = m_elements - _pos;
 		}
-- 
2.43.0


From 7b2da700a26bae927d7244aef3a67f732fe1fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 006/118] fix: Vector::insert corrupted elements without
 reallocation and leaked moved-from ones with it

---
 lib/include/spvgentwo/Vector.h | 36 ++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index aeb99ae..4d4d058 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -347,21 +347,29 @@ namespace spvgentwo
 		// no reallocation needed
 		if ( m_elements + _count <= m_capacity )
 		{
-			auto remainder = m_elements - _pos;
-
-			// move-construct last remainder elements to reserved but un-initialized data at the end
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
-			{
-				traits::constructWithArgs(m_pData + _pos + _count + i, stdrep::move(m_pData[_pos + i]));
-			}
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
+			// move remaining elements back to front, construct those which land in un-initialized data at the end
+			for ( sgt_size_t i = m_elements; _count > 0u && i > _pos; --i )
 			{
-				m_pData[_pos + i] = _pData[i];
+				const sgt_size_t target = i - 1u + _count;
+				if ( target >= m_elements )
+				{
+					traits::constructWithArgs(m_pData + target, stdrep::move(m_pData[i - 1u]));
+				}
+				else
+				{
+					m_pData[target] = stdrep::move(m_pData[i - 1u]);
+				}
 			}
-			auto rest = _count - remainder;
-			for ( sgt_size_t i = 0u; i < rest; ++i )
+			for ( sgt_size_t i = 0u; i < _count; ++i )
 			{
-				traits::constructWithArgs(m_pData + m_elements + i, stdrep::move(_pData[remainder + i]));
+				if ( _pos + i >= m_elements )
+				{
+					traits::constructWithArgs(m_pData + _pos + i, _pData[i]);
+				}
+				else
+				{
+					m_pData[_pos + i] = _pData[i];
+				}
 			}
 
 			m_elements += _count;
@@ -397,6 +405,10 @@ namespace spvgentwo
 
 			if ( m_pData != nullptr )
 			{
+				for ( sgt_size_t i = 0u; i < m_elements; ++i )
+				{
+					m_pData[i].~T();
+				}
 				m_pAllocator->deallocate(m_pData, m_capacity * sizeof(T));
 			}
 
-- 
2.43.0


From 3c9e6a77a2b38eeb5e3d4f7adcdd9dc3cd12d6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 007/118] fix: substrings, counted appends and inserts could
 leave a String without terminator

---
 lib/include/spvgentwo/String.h |  2 +-
 lib/source/String.cpp          | 19 ++++++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 6578866..32b9586 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -78,7 +78,7 @@ namespace spvgentwo
 		// don't insert the additional string terminator from _pCStr
 		Iterator insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length = 0u);
 
-		Iterator insert(sgt_size_t _pos, const String& _str) { return Vector::insert(_pos, _str.data(), _str.size()); }
+		Iterator insert(sgt_size_t _pos, const String& _str) { return _str.size() == 0u ? begin() + _pos : insert(_pos, _str.data(), _str.size()); }
 
 		bool operator==(const String& _other) const;
 		bool operator==(const char* _pStr) const;
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 0452f5b..d147b36 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -19,8 +19,13 @@ spvgentwo::String& spvgentwo::String::operator=(const char* _pStr)
 
 spvgentwo::String spvgentwo::String::substr(sgt_size_t _offset, sgt_size_t _length)
 {
-	const sgt_size_t available = m_elements - _offset;
-	return String(m_pAllocator, m_pData+_offset, _length > available ? available : _length);
+	String sub(m_pAllocator);
+	if (_offset < size() && _length > 0u)
+	{
+		const sgt_size_t available = size() - _offset;
+		sub.append(m_pData + _offset, _length > available ? available : _length);
+	}
+	return sub;
 }
 
 spvgentwo::String spvgentwo::String::operator+(const String& _other) const
@@ -70,6 +75,12 @@ spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _leng
 			m_pData[offset + i] = _pStr[i];
 		}
 		m_elements = offset + length;
+
+		// an explicit length may not include the terminator
+		if (m_elements > 0u && m_pData[m_elements - 1u] != '\0')
+		{
+			Vector::emplace_back('\0');
+		}
 	}
 	return *this;
 }
@@ -110,7 +121,9 @@ spvgentwo::String::Iterator spvgentwo::String::insert(sgt_size_t _pos, const cha
 	if (m_elements != 0u && m_pData[m_elements - 1u] != '\0')
 	{
 		// append string terminator if necessar
-		Vector::insert(m_elements, '\0');
+		const sgt_size_t offset = static_cast<sgt_size_t>(ret - m_pData);
+		Vector::emplace_back('\0');
+		ret = m_pData + offset; // might have been reallocated
 	}
 	return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 5121b317d660f5a4b7ae456face0d2e9ab4d9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 008/118] fix: appending an empty String dropped the
 terminator, an empty String compared unequal to ""

---
 lib/source/String.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index d147b36..77c3009 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -46,7 +46,7 @@ spvgentwo::String spvgentwo::String::operator+(const char* _pStr) const
 
 spvgentwo::String& spvgentwo::String::operator+=(const String& _other)
 {
-	if (reserve(m_elements + _other.m_elements))
+	if (_other.m_elements > 0u && reserve(m_elements + _other.m_elements))
 	{
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
 		for (sgt_size_t i = 0; i < _other.m_elements; ++i)
@@ -87,9 +87,9 @@ spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _leng
 
 bool spvgentwo::String::operator==(const String& _other) const
 {
-	if (m_elements == _other.m_elements)
+	if (size() == _other.size())
 	{
-		for (sgt_size_t i = 0u; i < m_elements; ++i)
+		for (sgt_size_t i = 0u; i < size(); ++i)
 		{
 			if (m_pData[i] != _other.m_pData[i])
 				return false;
@@ -102,9 +102,9 @@ bool spvgentwo::String::operator==(const String& _other) const
 bool spvgentwo::String::operator==(const char* _pStr) const
 {
 	const sgt_size_t length = stringLength(_pStr);
-	if (m_elements == length)
+	if (size() == (length == 0u ? 0u : length - 1u))
 	{
-		for (sgt_size_t i = 0; i < m_elements; ++i)
+		for (sgt_size_t i = 0; i < size(); ++i)
 		{
 			if (m_pData[i] != _pStr[i])
 				return false;
-- 
2.43.0


From b541fb58c54c1ced41f967bbcc2055783b776454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 009/118] fix: HashMap::eraseRange left the removed elements in
 the element count

---
 lib/include/spvgentwo/HashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index d29619f..559748d 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -269,6 +269,8 @@ namespace spvgentwo
 			}
 		}
 
+		m_Elements -= keys;
+
 		return keys;
 	}
 
-- 
2.43.0


From fb79c574644b702d61058605de1e64cfb048478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 010/118] fix: HashMap::findKey iterated the nodes of a bucket
 as buckets and could not be instantiated

---
 lib/include/spvgentwo/HashMap.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 559748d..5f22763 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -325,14 +325,11 @@ namespace spvgentwo
 	{
 		for (auto i = 0u; i < m_Buckets; ++i)
 		{
-			for (Bucket& b : m_pBuckets[i])
+			for (Node& n : m_pBuckets[i])
 			{
-				for (Node& n : b)
+				if (n.kv.value == _value)
 				{
-					if (n.kv.value == _value)
-					{
-						return &n.kv.key;
-					}
+					return &n.kv.key;
 				}
 			}
 		}
-- 
2.43.0


From 484699b1754ed24249cc4646cd1d2c67cd0808dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 011/118] fix: HashMap::getRange included elements of other
 keys of the same bucket

---
 lib/include/spvgentwo/HashMap.h | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 5f22763..025b23f 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -349,23 +349,36 @@ namespace spvgentwo
 	template<class ...Args>
 	inline typename HashMap<Key, Value>::Node& HashMap<Key, Value>::emplace(const Key& _key, Args&& ..._args)
 	{
-		Entry<Node>* pNode = Entry<Node>::create(m_pAllocator, _key, stdrep::forward<Args>(_args)...);
-
-		Node& n = pNode->inner();
+		Hash64 h = 0u;
 
 		if constexpr (stdrep::is_same_v<Key, Hash64>)
 		{
-			n.hash = _key;
+			h = _key;
 		}
 		else
 		{
-			n.hash = m_pHashFunc(_key);
+			h = m_pHashFunc(_key);
 		}
 
-		const auto index = n.hash % m_Buckets;
+		Bucket& bucket = m_pBuckets[h % m_Buckets];
+
+		// elements with the same hash stay adjacent (see getRange)
+		auto last = bucket.end();
+
+		for (auto it = bucket.begin(); it != bucket.end(); ++it)
+		{
+			if (it->hash == h)
+			{
+				last = it;
+			}
+		}
 
 		// append to chain
-		m_pBuckets[index].append_entry(pNode);
+		Node& n = last == bucket.end() ?
+			bucket.emplace_back(_key, stdrep::forward<Args>(_args)...) :
+			bucket.insert_after(last, _key, stdrep::forward<Args>(_args)...)->inner();
+
+		n.hash = h;
 
 		++m_Elements;
 
-- 
2.43.0


From 9f777f4a743394d95c7eb868d158d0464451b8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 012/118] fix: HashMap::operator[] and count did not use a
 Hash64 key as the hash

---
 lib/include/spvgentwo/HashMap.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 025b23f..58d5710 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -54,7 +54,7 @@ namespace spvgentwo
 		Value* get(const T& _key) const { return get(m_pHashFunc(_key)); }
 
 		// retuns nullptr if not resident
-		Value* operator[](const Key& _key) const { return get(m_pHashFunc(_key)); }
+		Value* operator[](const Key& _key) const { return get(_key); }
 
 		TRange getRange(const Hash64 _hash) const;
 
@@ -73,7 +73,10 @@ namespace spvgentwo
 		unsigned int eraseRange(const Key& _key);
 
 		unsigned int count(const Hash64 _hash) const;
-		unsigned int count(const Key& _key) const { return count(m_pHashFunc(_key)); }
+
+		// only enable overload of Key type differs from Hash64
+		template <class T = Key, typename = stdrep::enable_if_t<stdrep::is_same_v<T, Key> && !stdrep::is_same_v<T, Hash64>>>
+		unsigned int count(const T& _key) const { return count(m_pHashFunc(_key)); }
 
 		constexpr const Bucket& getBucket(const unsigned int _index) const { return m_pBuckets[_index]; }
 		constexpr unsigned int getBucketCount() const { return m_Buckets; }
-- 
2.43.0


From 0e1ed80ae01143cb3bb77b7edae2c2ec1b0bd1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 013/118] fix: structured If left empty arms without
 terminator, Loop terminated bodies that had already left

---
 lib/include/spvgentwo/BasicBlockTemplate.inl | 12 ++++++++----
 lib/source/BasicBlock.cpp                    |  6 +++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/BasicBlockTemplate.inl b/lib/include/spvgentwo/BasicBlockTemplate.inl
index 5832e83..5a8b889 100644
--- a/lib/include/spvgentwo/BasicBlockTemplate.inl
+++ b/lib/include/spvgentwo/BasicBlockTemplate.inl
@@ -19,11 +19,11 @@ namespace spvgentwo
 		_false(falseBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.empty() == false && trueBB.back().isTerminator() == false)
+		if (trueBB.getTerminator() == nullptr)
 		{
 			trueBB->opBranch(&mergeBB);
 		}
-		if (falseBB.empty() == false && falseBB.back().isTerminator() == false)
+		if (falseBB.getTerminator() == nullptr)
 		{
 			falseBB->opBranch(&mergeBB);
 		}
@@ -45,7 +45,7 @@ namespace spvgentwo
 		_true(trueBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.empty() == false && trueBB.back().isTerminator() == false)
+		if (trueBB.getTerminator() == nullptr)
 		{
 			trueBB->opBranch(&mergeBB);		
 		}
@@ -79,7 +79,11 @@ namespace spvgentwo
 		condBB->opBranchConditional(pCond, &bodyBB, &mergeBB);
 
 		_body(bodyBB);
-		bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
+		// check if user didnt exit controlflow via return or similar
+		if (bodyBB.getTerminator() == nullptr)
+		{
+			bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
+		}
 
 		_continue(continueBB);
 		continueBB->opBranch(&loop); // back edge to loop merge
diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 6400a62..bd4e4d5 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -214,7 +214,11 @@ spvgentwo::BasicBlock& spvgentwo::BasicBlock::Loop(Instruction* _pCondition, Bas
 	addInstruction()->opBranch(&condBB);
 
 	condBB->opBranchConditional(_pCondition, &_body, &mergeBB);
-	_body->opBranch(&_continue); // branch to "increment" / continue block
+	// check if user didnt exit controlflow via return or similar
+	if (_body.getTerminator() == nullptr)
+	{
+		_body->opBranch(&_continue); // branch to "increment" / continue block
+	}
 	_continue->opBranch(this); // back edge to loop merge
 
 	return mergeBB;
-- 
2.43.0


From 57dade79c1de274de59f6dd80a6c5470af115b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 014/118] fix: blocks in which nested structured helpers end
 were never connected to the enclosing merge or continue block

---
 lib/include/spvgentwo/BasicBlock.h           |  7 ++++
 lib/include/spvgentwo/BasicBlockTemplate.inl | 28 +++++--------
 lib/source/BasicBlock.cpp                    | 42 ++++++++++++++------
 3 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/lib/include/spvgentwo/BasicBlock.h b/lib/include/spvgentwo/BasicBlock.h
index f39e3c4..61f80af 100644
--- a/lib/include/spvgentwo/BasicBlock.h
+++ b/lib/include/spvgentwo/BasicBlock.h
@@ -18,6 +18,13 @@ namespace spvgentwo
 
 		Function* m_pFunction = nullptr; // parent
 		Instruction m_Label;
+		BasicBlock* m_pMergeBlock = nullptr; // block in which building continues after a structured If or Loop was added to this block
+
+		// follows the structured helpers added to this block, returns the block in which building continues
+		BasicBlock& getMergedBlock();
+
+		// branch from the block in which building continues to _target, unless controlflow was already exited via kill or similar
+		void mergeTo(BasicBlock& _target);
 
 	public:
 		BasicBlock() = default;
diff --git a/lib/include/spvgentwo/BasicBlockTemplate.inl b/lib/include/spvgentwo/BasicBlockTemplate.inl
index 5a8b889..e4ddfd3 100644
--- a/lib/include/spvgentwo/BasicBlockTemplate.inl
+++ b/lib/include/spvgentwo/BasicBlockTemplate.inl
@@ -19,15 +19,10 @@ namespace spvgentwo
 		_false(falseBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.getTerminator() == nullptr)
-		{
-			trueBB->opBranch(&mergeBB);
-		}
-		if (falseBB.getTerminator() == nullptr)
-		{
-			falseBB->opBranch(&mergeBB);
-		}
+		trueBB.mergeTo(mergeBB);
+		falseBB.mergeTo(mergeBB);
 
+		m_pMergeBlock = &mergeBB;
 		return mergeBB;
 	}
 
@@ -45,11 +40,9 @@ namespace spvgentwo
 		_true(trueBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.getTerminator() == nullptr)
-		{
-			trueBB->opBranch(&mergeBB);		
-		}
+		trueBB.mergeTo(mergeBB);
 
+		m_pMergeBlock = &mergeBB;
 		return mergeBB;
 	}
 
@@ -76,18 +69,15 @@ namespace spvgentwo
 
 		Instruction* pCond = _condition(condBB);
 		// take last instruction of condBB as conditional
-		condBB->opBranchConditional(pCond, &bodyBB, &mergeBB);
+		condBB.getMergedBlock()->opBranchConditional(pCond, &bodyBB, &mergeBB);
 
 		_body(bodyBB);
-		// check if user didnt exit controlflow via return or similar
-		if (bodyBB.getTerminator() == nullptr)
-		{
-			bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
-		}
+		bodyBB.mergeTo(continueBB); // branch to "increment" / continue block
 
 		_continue(continueBB);
-		continueBB->opBranch(&loop); // back edge to loop merge
+		continueBB.mergeTo(loop); // back edge to loop merge
 
+		m_pMergeBlock = &mergeBB;
 		return mergeBB;
 	}
 } // !spvgentwo
\ No newline at end of file
diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index bd4e4d5..70294ca 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -169,6 +169,25 @@ bool spvgentwo::BasicBlock::remove(const Instruction* _pInstr)
 	return false;
 }
 
+spvgentwo::BasicBlock& spvgentwo::BasicBlock::getMergedBlock()
+{
+	BasicBlock* pBB = this;
+	while (pBB->m_pMergeBlock != nullptr)
+	{
+		pBB = pBB->m_pMergeBlock;
+	}
+	return *pBB;
+}
+
+void spvgentwo::BasicBlock::mergeTo(BasicBlock& _target)
+{
+	BasicBlock& bb = getMergedBlock();
+	if (&bb != &_target && bb.getTerminator() == nullptr)
+	{
+		bb->opBranch(&_target);
+	}
+}
+
 spvgentwo::BasicBlock& spvgentwo::BasicBlock::If(Instruction* _pCondition, BasicBlock& _trueBlock, BasicBlock& _falseBlock, BasicBlock* _pMergeBlock, const Flag<spv::SelectionControlMask> _mask)
 {
 	// this block has not been terminated yet
@@ -177,15 +196,16 @@ spvgentwo::BasicBlock& spvgentwo::BasicBlock::If(Instruction* _pCondition, Basic
 	addInstruction()->opSelectionMerge(&mergeBB, _mask);
 	addInstruction()->opBranchConditional(_pCondition, &_trueBlock, &_falseBlock);
 
-	if (_trueBlock.empty() == false && _trueBlock.back().isTerminator() == false)
+	if (_trueBlock.empty() == false)
 	{
-		_trueBlock->opBranch(&mergeBB);
+		_trueBlock.mergeTo(mergeBB);
 	}
-	if (_falseBlock.empty() == false && _falseBlock.back().isTerminator() == false)
+	if (_falseBlock.empty() == false)
 	{
-		_falseBlock->opBranch(&mergeBB);
+		_falseBlock.mergeTo(mergeBB);
 	}
 
+	m_pMergeBlock = &mergeBB;
 	return mergeBB;
 }
 
@@ -197,11 +217,12 @@ spvgentwo::BasicBlock& spvgentwo::BasicBlock::If(Instruction* _pCondition, Basic
 	addInstruction()->opSelectionMerge(&mergeBB, _mask);
 	addInstruction()->opBranchConditional(_pCondition, &_trueBlock, &mergeBB);
 
-	if (_trueBlock.empty() == false && _trueBlock.back().isTerminator() == false)
+	if (_trueBlock.empty() == false)
 	{
-		_trueBlock->opBranch(&mergeBB);
+		_trueBlock.mergeTo(mergeBB);
 	}
 
+	m_pMergeBlock = &mergeBB;
 	return mergeBB;
 }
 
@@ -214,13 +235,10 @@ spvgentwo::BasicBlock& spvgentwo::BasicBlock::Loop(Instruction* _pCondition, Bas
 	addInstruction()->opBranch(&condBB);
 
 	condBB->opBranchConditional(_pCondition, &_body, &mergeBB);
-	// check if user didnt exit controlflow via return or similar
-	if (_body.getTerminator() == nullptr)
-	{
-		_body->opBranch(&_continue); // branch to "increment" / continue block
-	}
-	_continue->opBranch(this); // back edge to loop merge
+	_body.mergeTo(_continue); // branch to "increment" / continue block
+	_continue.mergeTo(*this); // back edge to loop merge
 
+	m_pMergeBlock = &mergeBB;
 	return mergeBB;
 }
 
-- 
2.43.0


From 54a2de918d8745c43eb19db00074726dce358b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 015/118] fix: blocks of structured helpers were listed before
 blocks of nested helpers that dominate them

---
 lib/include/spvgentwo/BasicBlock.h           |  3 +++
 lib/include/spvgentwo/BasicBlockTemplate.inl |  8 ++++++++
 lib/source/BasicBlock.cpp                    | 14 ++++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/lib/include/spvgentwo/BasicBlock.h b/lib/include/spvgentwo/BasicBlock.h
index 61f80af..e74be68 100644
--- a/lib/include/spvgentwo/BasicBlock.h
+++ b/lib/include/spvgentwo/BasicBlock.h
@@ -26,6 +26,9 @@ namespace spvgentwo
 		// branch from the block in which building continues to _target, unless controlflow was already exited via kill or similar
 		void mergeTo(BasicBlock& _target);
 
+		// move this block behind the blocks added by the body of a structured helper (which it might be dominated by)
+		void moveToEnd();
+
 	public:
 		BasicBlock() = default;
 
diff --git a/lib/include/spvgentwo/BasicBlockTemplate.inl b/lib/include/spvgentwo/BasicBlockTemplate.inl
index e4ddfd3..71b7fe2 100644
--- a/lib/include/spvgentwo/BasicBlockTemplate.inl
+++ b/lib/include/spvgentwo/BasicBlockTemplate.inl
@@ -22,6 +22,8 @@ namespace spvgentwo
 		trueBB.mergeTo(mergeBB);
 		falseBB.mergeTo(mergeBB);
 
+		if (_pMergeBlock == nullptr) mergeBB.moveToEnd();
+
 		m_pMergeBlock = &mergeBB;
 		return mergeBB;
 	}
@@ -42,6 +44,8 @@ namespace spvgentwo
 		// check if user didnt exit controlflow via kill or similar
 		trueBB.mergeTo(mergeBB);
 
+		if (_pMergeBlock == nullptr) mergeBB.moveToEnd();
+
 		m_pMergeBlock = &mergeBB;
 		return mergeBB;
 	}
@@ -71,12 +75,16 @@ namespace spvgentwo
 		// take last instruction of condBB as conditional
 		condBB.getMergedBlock()->opBranchConditional(pCond, &bodyBB, &mergeBB);
 
+		bodyBB.moveToEnd();
 		_body(bodyBB);
 		bodyBB.mergeTo(continueBB); // branch to "increment" / continue block
 
+		continueBB.moveToEnd();
 		_continue(continueBB);
 		continueBB.mergeTo(loop); // back edge to loop merge
 
+		if (_pMergeBlock == nullptr) mergeBB.moveToEnd();
+
 		m_pMergeBlock = &mergeBB;
 		return mergeBB;
 	}
diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 70294ca..4fe51b4 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -188,6 +188,20 @@ void spvgentwo::BasicBlock::mergeTo(BasicBlock& _target)
 	}
 }
 
+void spvgentwo::BasicBlock::moveToEnd()
+{
+	for (auto it = m_pFunction->begin(), e = m_pFunction->end(); it != e; ++it)
+	{
+		if (it.operator->() == this)
+		{
+			auto* pEntry = it.entry();
+			m_pFunction->erase(it, false);
+			m_pFunction->append_entry(pEntry);
+			return;
+		}
+	}
+}
+
 spvgentwo::BasicBlock& spvgentwo::BasicBlock::If(Instruction* _pCondition, BasicBlock& _trueBlock, BasicBlock& _falseBlock, BasicBlock* _pMergeBlock, const Flag<spv::SelectionControlMask> _mask)
 {
 	// this block has not been terminated yet
-- 
2.43.0


From ecf626be06643b3d5c6b94814c1618c6d77b94b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 016/118] fix: types that differ only in the nesting of their
 members had the same hash and were merged

---
 lib/include/spvgentwo/Type.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index cf80c54..d592231 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -668,7 +668,8 @@ namespace spvgentwo
 			_hasher << _type.getImageSamplerAccess();
 			_hasher << _type.getImageFormat();
 			_hasher << _type.getAccessQualifier();
-				
+			_hasher << _type.getSubTypes().size(); // where members end is part of the type: {{a}, b} differs from {{a, b}}
+
 			for (const Type& sub : _type.getSubTypes()) {
 				operator()(sub, _hasher); // go deeper
 			}
-- 
2.43.0


From 20c6c1c983b89b50af741c35df26391a367aaa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 017/118] fix: entry points did not report the name or
 execution model they were created with

---
 lib/include/spvgentwo/EntryPointTemplate.inl | 3 ++-
 lib/source/EntryPoint.cpp                    | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/EntryPointTemplate.inl b/lib/include/spvgentwo/EntryPointTemplate.inl
index 6a86a7a..c3625cb 100644
--- a/lib/include/spvgentwo/EntryPointTemplate.inl
+++ b/lib/include/spvgentwo/EntryPointTemplate.inl
@@ -6,7 +6,8 @@ namespace spvgentwo
 	inline EntryPoint::EntryPoint(Module* _pModule, const spv::ExecutionModel _model, const char* _pEntryPointName, const Flag<spv::FunctionControlMask> _control, Instruction* _pReturnType, TypeInstr* ..._paramTypeInstructions) :
 		Function(_pModule, _pEntryPointName, _control, _pReturnType, _paramTypeInstructions...),
 		m_EntryPoint(this, spv::Op::OpNop),
-		m_ExecutionModel(_model)
+		m_ExecutionModel(_model),
+		m_nameStorage(_pModule->getAllocator(), _pEntryPointName)
 	{
 		m_isEntryPoint = true;
 		m_EntryPoint.opEntryPoint(_model, &m_Function, _pEntryPointName);
diff --git a/lib/source/EntryPoint.cpp b/lib/source/EntryPoint.cpp
index 1102789..d199fdb 100644
--- a/lib/source/EntryPoint.cpp
+++ b/lib/source/EntryPoint.cpp
@@ -50,6 +50,7 @@ spvgentwo::Instruction* spvgentwo::EntryPoint::finalize(const spv::ExecutionMode
 	{
 		m_EntryPoint.opEntryPoint(_model, &m_Function, _pEntryPointName);
 		m_nameStorage = _pEntryPointName;
+		m_ExecutionModel = _model;
 	}
 
 	return pFunc;
-- 
2.43.0


From 78ec8e6a677a536b2ccf28f47e7c881133e372e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 018/118] fix: reading an image type with access qualifier
 dereferenced the end of its operands

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a4d0b47..a7792ba 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -993,7 +993,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 
 				if (++it != nullptr)
 				{
-					t.setAccessQualifier(static_cast<spv::AccessQualifier>((++it)->getLiteral().value));
+					t.setAccessQualifier(static_cast<spv::AccessQualifier>(it->getLiteral().value));
 				}
 			}
 			break;
-- 
2.43.0


From 8a0055cb9ade52103c72d56cd996e16d7afc3ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 019/118] fix: comparing literal strings matched unterminated
 or exhausted literals and read beyond the given length

---
 lib/source/Instruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 5f888f3..04e919f 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -2071,7 +2071,7 @@ bool spvgentwo::compareLiteralString(const char* _pStr, Instruction::Iterator _b
 	for (auto it = _begin; it != _end && it->isLiteral() && j < _StrLength; ++it)
 	{
 		const char* str = reinterpret_cast<const char*>(&it->literal.value);
-		for (unsigned int i = 0u; i < sizeof(unsigned int); ++i)
+		for (unsigned int i = 0u; i < sizeof(unsigned int) && j < _StrLength; ++i)
 		{
 			if (str[i] == '\0' && _pStr[j] == '\0')
 			{
@@ -2083,5 +2083,5 @@ bool spvgentwo::compareLiteralString(const char* _pStr, Instruction::Iterator _b
 			}
 		}
 	};
-	return true;
+	return j == _StrLength; // false if the literals ended before the string did
 }
\ No newline at end of file
-- 
2.43.0


From 73cc2b05936001f15b3e358deca243409a899f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 020/118] fix: getInstructionByName only considers OpName

---
 lib/source/Module.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a7792ba..1412838 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1690,6 +1690,9 @@ spvgentwo::Instruction* spvgentwo::Module::getInstructionByName(const char* _pNa
 {
 	for (Instruction& instr : m_Names) 
 	{
+		// the literal of OpMemberName names a member, not the target
+		if (instr.getOperation() != spv::Op::OpName) continue;
+
 		auto it = instr.getFirstActualOperand();
 
 		if (Instruction* target = it->getInstruction(); target != nullptr)
-- 
2.43.0


From de82169b50f7701ae246eea8b3dd2b6822c86cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:39 +0000
Subject: [PATCH 021/118] fix: a refused name is not added to the name lookup

---
 lib/source/Module.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 1412838..7339e16 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -379,13 +379,29 @@ spvgentwo::Instruction* spvgentwo::Module::addNameInstr()
 
 void spvgentwo::Module::addName(Instruction* _pTarget, const char* _pName)
 {
-	addNameInstr()->opName(_pTarget, _pName);
+	Instruction* pName = addNameInstr();
+	pName->opName(_pTarget, _pName);
+
+	if (pName->getOperation() != spv::Op::OpName) // refused
+	{
+		remove(pName);
+		return;
+	}
+
 	m_NameLookup.emplace(_pTarget, MemberName{ String(m_pAllocator, _pName), sgt_uint32_max });
 }
 
 void spvgentwo::Module::addMemberName(Instruction* _pTargetBase, const char* _pMemberName, unsigned int _memberIndex)
 {
-	addNameInstr()->opMemberName(_pTargetBase, _memberIndex, _pMemberName);
+	Instruction* pName = addNameInstr();
+	pName->opMemberName(_pTargetBase, _memberIndex, _pMemberName);
+
+	if (pName->getOperation() != spv::Op::OpMemberName) // refused
+	{
+		remove(pName);
+		return;
+	}
+
 	m_NameLookup.emplace(_pTargetBase, MemberName{ String(m_pAllocator, _pMemberName), _memberIndex });
 }
 
-- 
2.43.0


From f872865c720f3ae3409f7fb3b69b8e8050427a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 022/118] fix: BinaryFileReader reads to the end of the file
 from an offset

---
 common/source/BinaryFileReader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common/source/BinaryFileReader.cpp b/common/source/BinaryFileReader.cpp
index 16fa62a..179e66c 100644
--- a/common/source/BinaryFileReader.cpp
+++ b/common/source/BinaryFileReader.cpp
@@ -52,12 +52,19 @@ bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sg
 
 	if (file != nullptr)
 	{
-		if (fseek(file, static_cast<long>(_offset), SEEK_END) != 0) 
+		if (fseek(file, 0, SEEK_END) != 0) 
 		{
 			return false;
 		}
 
 		auto remaining = static_cast<sgt_size_t>(ftell(file));
+
+		if (_offset > remaining)
+		{
+			return false;
+		}
+
+		remaining -= _offset;
 		if (fseek(file, static_cast<long>(_offset), SEEK_SET) != 0u)
 		{
 			return false;
-- 
2.43.0


From 848ff941341ef0a304ef3d20c33e90935e25ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 023/118] fix: read the parameters of every bit of a mask, and
 only words of the instruction

---
 lib/source/Instruction.cpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 04e919f..ebdd06c 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -501,16 +501,41 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			{
 				const unsigned int enumVal = back().getLiteral(); // last added operand
 
-				if (auto* params = _grammar.getOperandParameters(op.kind, enumVal); params != nullptr)
+				auto parseParameters = [&](const unsigned int _value) -> bool
 				{
-					for (const auto& param : *params)
+					if (auto* params = _grammar.getOperandParameters(op.kind, _value); params != nullptr)
 					{
-						if (parseSimpleOps(_operandCount, param) == false)
+						for (const auto& param : *params)
+						{
+							if (_operandCount == 0u)
+							{
+								getModule()->logError("Missing operand parameters for %s", info->name);
+								return false;
+							}
+							if (parseSimpleOps(_operandCount, param) == false)
+							{
+								return false;
+							}
+						}
+					}
+					return true;
+				};
+
+				if (op.category == Grammar::OperandCategory::BitEnum)
+				{
+					// parameters follow the mask in the order of the bits that ask for them
+					for (unsigned int bit = 1u; bit != 0u; bit <<= 1u)
+					{
+						if ((enumVal & bit) != 0u && parseParameters(bit) == false)
 						{
 							return false;
 						}
 					}
 				}
+				else if (parseParameters(enumVal) == false)
+				{
+					return false;
+				}
 			}
 		}
 		else if (op.category == Grammar::OperandCategory::Id)
-- 
2.43.0


From 42b181670c3306b6cfe4efa1bc1418d89ef892f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 024/118] fix: an unterminated literal string is not read past
 the end of its instruction

---
 lib/source/Instruction.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index ebdd06c..34f311c 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -356,7 +356,7 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	auto parseLiteralString = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
-		while (_operands-- > 0u)
+		while (_operands > 0u)
 		{
 			if (_reader.get(word) == false)
 			{
@@ -364,6 +364,7 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 				return false;
 			}
 
+			--_operands;
 			addOperand(static_cast<literal_t>(word));
 			if (hasStringTerminator(word)) // reached end of string
 			{
@@ -371,7 +372,8 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			}
 		}
 
-		return true;
+		getModule()->logError("Literal string of %s is not terminated", info->name);
+		return false;
 	};
 
 	auto parseId = [&](unsigned int& _operands) -> bool
-- 
2.43.0


From 6a177ac34c5cd950ab06e5b7d5a93e2b8c67ed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 025/118] fix: instructions without operand words are checked
 against the grammar too

---
 lib/source/Instruction.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 34f311c..752be18 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -337,11 +337,6 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 
 	m_Operation = _op;
 
-	if (_operandCount == 0u)
-	{
-		return true; // nothing left to do
-	}
-
 	const Grammar::Instruction* info = _grammar.getInfo(static_cast<unsigned int>(m_Operation));
 
 	if (info == nullptr)
-- 
2.43.0


From 0783f71978d72f4f8faba35b00466c0d579e616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 026/118] fix: read the operands of OpSpecConstantOp by the
 wrapped instruction

---
 lib/source/Instruction.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 752be18..1f970eb 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -346,7 +346,7 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	}
 
 	auto it = info->operands.begin();
-	const auto end = info->operands.end();
+	auto end = info->operands.end();
 
 	auto parseLiteralString = [&](unsigned int& _operands) -> bool
 	{
@@ -434,17 +434,23 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 				return false;
 			}
 
-			// remaining operands must be IDs
-			while (_operandCount > 0u)
+			// remaining operands are those of the wrapped instruction
+			const Grammar::Instruction* wrapped = _grammar.getInfo(back().getLiteral().value);
+			if (wrapped == nullptr)
 			{
-				if (parseId(_operandCount) == false)
-				{
-					return false;
-				}
+				getModule()->logError("Unkown op code %u", back().getLiteral().value);
+				return false;
 			}
 
-			++it; // no more operands after this one
-			break; // end of instruction
+			it = wrapped->operands.begin();
+			end = wrapped->operands.end();
+
+			while (it != end && (it->kind == Grammar::OperandKind::IdResultType || it->kind == Grammar::OperandKind::IdResult))
+			{
+				++it;
+			}
+
+			continue;
 		}
 
 		if (op.category == Grammar::OperandCategory::Composite)
-- 
2.43.0


From d34fbfbc42a80a3f3ad21051d0b5fce9232b6ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 027/118] fix: reject impossible word counts

---
 lib/source/BasicBlock.cpp |  7 +++++++
 lib/source/Function.cpp   | 19 ++++++++++++++++++-
 lib/source/Module.cpp     |  7 +++++++
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 4fe51b4..1a485dd 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -135,6 +135,13 @@ bool spvgentwo::BasicBlock::read(IReader& _reader, const Grammar& _grammar)
 	while (_reader.get(word))
 	{
 		const spv::Op op = getOperation(word);
+
+		if (getOperandCount(word) == 0u)
+		{
+			getModule()->logError("Invalid word count of operation %u", op);
+			return false;
+		}
+
 		const unsigned int operands = getOperandCount(word) - 1u;
 
 		if (emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false)
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 583abed..fc73951 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -80,6 +80,13 @@ bool spvgentwo::Function::read(IReader& _reader, const Grammar& _grammar, Instru
 	while (_reader.get(word))
 	{
 		const spv::Op op = getOperation(word);
+
+		if (getOperandCount(word) == 0u)
+		{
+			m_pModule->logError("Invalid word count of operation %u", op);
+			return false;
+		}
+
 		const unsigned int operands = getOperandCount(word) - 1u;
 
 		switch (op)
@@ -88,10 +95,20 @@ bool spvgentwo::Function::read(IReader& _reader, const Grammar& _grammar, Instru
 			if (m_Parameters.emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false) return false;
 			break;
 		case spv::Op::OpLabel:
+			if (operands != 1u) // result id
+			{
+				m_pModule->logError("Invalid word count of OpLabel");
+				return false;
+			}
 			if (addBasicBlock().read(_reader, _grammar) == false) return false;
 			break;
 		case spv::Op::OpFunctionEnd:
-			return true; // FunctionEnd has no operands
+			if (operands != 0u)
+			{
+				m_pModule->logError("Invalid word count of OpFunctionEnd");
+				return false;
+			}
+			return true;
 		default:
 			m_pModule->logError("Unexpected op-code for function");
 			return false; // unexpected op code
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 7339e16..faa5d03 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1230,6 +1230,13 @@ bool spvgentwo::Module::read(IReader& _reader, const Grammar& _grammar)
 	while (_reader.get(word))
 	{
 		const spv::Op op = getOperation(word);
+
+		if (getOperandCount(word) == 0u)
+		{
+			logError("Invalid word count of operation %u", op);
+			return false;
+		}
+
 		const unsigned int operands = getOperandCount(word) - 1u;
 
 		if (spv::IsTypeOp(op) || isSpecOrConstantOp(op))
-- 
2.43.0


From 7165186608ab614be3885e9dab0c52e216a319f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 028/118] fix: recognise all instructions that terminate a
 block

---
 lib/include/spvgentwo/SpvDefines.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index f890847..20e88be 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -82,6 +82,10 @@ namespace spvgentwo
 		case spv::Op::OpReturnValue:
 		case spv::Op::OpKill:
 		case spv::Op::OpUnreachable:
+		case spv::Op::OpTerminateInvocation:
+		case spv::Op::OpIgnoreIntersectionKHR:
+		case spv::Op::OpTerminateRayKHR:
+		case spv::Op::OpEmitMeshTasksEXT:
 			return true;
 		default:
 			return false;
-- 
2.43.0


From 1d8989c94f92a9f24f9548215e15aba25e9a44ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 029/118] fix: reject instructions that can not be part of a
 block while reading it

---
 lib/include/spvgentwo/SpvDefines.h | 37 ++++++++++++++++++++++++++++++
 lib/source/BasicBlock.cpp          |  6 +++++
 2 files changed, 43 insertions(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 20e88be..871fa93 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -98,6 +98,43 @@ namespace spvgentwo
 		return IsConstantOp(_instr) || IsSpecConstantOp(_instr);
 	}
 
+	// Instructions that can not be part of a basic block
+	constexpr bool isOutsideBlockOp(spv::Op _instr)
+	{
+		switch (_instr)
+		{
+		case spv::Op::OpCapability:
+		case spv::Op::OpExtension:
+		case spv::Op::OpExtInstImport:
+		case spv::Op::OpMemoryModel:
+		case spv::Op::OpEntryPoint:
+		case spv::Op::OpExecutionMode:
+		case spv::Op::OpExecutionModeId:
+		case spv::Op::OpString:
+		case spv::Op::OpSourceExtension:
+		case spv::Op::OpSource:
+		case spv::Op::OpSourceContinued:
+		case spv::Op::OpName:
+		case spv::Op::OpMemberName:
+		case spv::Op::OpModuleProcessed:
+		case spv::Op::OpDecorate:
+		case spv::Op::OpMemberDecorate:
+		case spv::Op::OpDecorationGroup:
+		case spv::Op::OpGroupDecorate:
+		case spv::Op::OpGroupMemberDecorate:
+		case spv::Op::OpDecorateId:
+		case spv::Op::OpDecorateString:
+		case spv::Op::OpMemberDecorateString:
+		case spv::Op::OpFunction:
+		case spv::Op::OpFunctionParameter:
+		case spv::Op::OpFunctionEnd:
+		case spv::Op::OpLabel:
+			return true;
+		default:
+			return spv::IsTypeOp(_instr) || isSpecOrConstantOp(_instr);
+		}
+	}
+
 	enum class Sign
 	{
 		Signed = 1 << 0,
diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 1a485dd..b675d41 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -144,6 +144,12 @@ bool spvgentwo::BasicBlock::read(IReader& _reader, const Grammar& _grammar)
 
 		const unsigned int operands = getOperandCount(word) - 1u;
 
+		if (isOutsideBlockOp(op))
+		{
+			getModule()->logError("Unexpected op-code for basic block");
+			return false;
+		}
+
 		if (emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false)
 		{
 			break;
-- 
2.43.0


From 4c84cdd93891b0d5c9aa8b51a680061426a407d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 030/118] fix: the length of an array read from a binary may be
 any instruction

---
 lib/source/Module.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index faa5d03..26a5915 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -971,7 +971,8 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				t.Member(sub); // element type
 
 				Instruction* pConstInstr = (++it)->getInstruction();
-				if ( pConstInstr == nullptr || pConstInstr->getType()->isInt() == false)
+				const Type* pConstType = pConstInstr != nullptr ? pConstInstr->getType() : nullptr;
+				if (pConstType == nullptr || pConstInstr->isSpecOrConstant() == false || pConstType->isInt() == false)
 				{
 					logError("Array length constant not found or invalid type");
 					success = false;
@@ -979,7 +980,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				}
 
 				auto cit = pConstInstr->getFirstActualOperand();
-				if (cit->isLiteral())
+				if (cit != nullptr && cit->isLiteral())
 				{
 					t.setArrayLength(cit->literal); // array length
 				}
-- 
2.43.0


From 09d5540eb48c5a8b448a702a05994a3bf6beae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 031/118] fix: a reference to id 0 is not resolved

---
 lib/source/Module.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 26a5915..d7f7189 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -807,8 +807,10 @@ bool spvgentwo::Module::resolveIDs(IAllocator* _pAllocator)
 				continue;
 			}
 
-			if (spv::Id id = it->getId(); id != InvalidId)
+			if (it->isId())
 			{
+				const spv::Id id = it->getId();
+
 				if (Instruction** ppInstr = idToPtr.get(id); ppInstr != nullptr) // lookup pointer for operand
 				{
 					Instruction* op = *ppInstr;
-- 
2.43.0


From d8678a0414b2929be2d5d627121c0456a842453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:49 +0000
Subject: [PATCH 032/118] fix: an id defined twice is not resolved

---
 lib/source/Module.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index d7f7189..78b2779 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -786,6 +786,13 @@ bool spvgentwo::Module::resolveIDs(IAllocator* _pAllocator)
 				return true; // stop iterating
 			}
 
+			if (idToPtr.get(it->id) != nullptr)
+			{
+				logError("Result <id> %u is defined more than once", it->id);
+				success = false;
+				return true; // stop iterating
+			}
+
 			idToPtr.emplaceUnique(it->id, &_instr);
 		}
 		return false;
-- 
2.43.0


From e5a5c02d802fd653cddca46fc4f4f96c7ab5b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 033/118] fix: bool constants read from a binary are found
 again

---
 lib/source/Module.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 78b2779..652ef39 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1050,11 +1050,15 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			switch (instr.getOperation())
 			{
 			case spv::Op::OpConstantNull:
+				break; // nothing to do
 			case spv::Op::OpConstantTrue:
 			case spv::Op::OpSpecConstantTrue:
+				c.getData().emplace_back(1u); // same as Constant::make<bool>
+				break;
 			case spv::Op::OpConstantFalse:
 			case spv::Op::OpSpecConstantFalse:
-				break; // nothing to do
+				c.getData().emplace_back(0u);
+				break;
 			case spv::Op::OpConstant:
 			case spv::Op::OpSpecConstant:
 			case spv::Op::OpConstantSampler:
-- 
2.43.0


From 493fd3e2c4077ebd6294c0032d49b9967f078c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 034/118] fix: modules with OpSpecConstantOp could not be
 initialised

---
 lib/source/Module.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 652ef39..75a1bab 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -981,7 +981,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 
 				Instruction* pConstInstr = (++it)->getInstruction();
 				const Type* pConstType = pConstInstr != nullptr ? pConstInstr->getType() : nullptr;
-				if (pConstType == nullptr || pConstInstr->isSpecOrConstant() == false || pConstType->isInt() == false)
+				if (pConstType == nullptr || (*pConstInstr != spv::Op::OpConstant && *pConstInstr != spv::Op::OpSpecConstant) || pConstType->isInt() == false)
 				{
 					logError("Array length constant not found or invalid type");
 					success = false;
@@ -1050,6 +1050,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			switch (instr.getOperation())
 			{
 			case spv::Op::OpConstantNull:
+			case spv::Op::OpSpecConstantOp: // result of an operation on other constants
 				break; // nothing to do
 			case spv::Op::OpConstantTrue:
 			case spv::Op::OpSpecConstantTrue:
-- 
2.43.0


From 36de60325538237fa634934c0a62cfcc14c846a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 035/118] fix: only the first variable of an instruction was
 listed in the interface of an entry point

---
 lib/source/Function.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index fc73951..b4d1c9b 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -397,7 +397,6 @@ void spvgentwo::collectReferencedVariables(const Function& _func, List<Operand>&
 					{
 						_outVarInstr.emplace_back(pArg);
 					}
-					break;
 				}
 			}
 		}
-- 
2.43.0


From b5ec89b0a569cdd6d313f1dd7c603185c64757d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 036/118] fix: entry point interfaces were collected for the
 version before finalize raised it

---
 lib/source/Module.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 75a1bab..fca2206 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1195,17 +1195,20 @@ bool spvgentwo::Module::write(IWriter& _writer) const
 
 spvgentwo::spv::Id spvgentwo::Module::finalize( const Grammar* _pGrammar )
 {
+	// may raise the version, which determines the kind of interface
+	const spv::Id bound = assignIDs( _pGrammar ); // overwrites m_spvBound
+
 	finalizeEntryPoints();
 
-	return assignIDs( _pGrammar ); // overwrites m_spvBound
+	return bound;
 }
 
 bool spvgentwo::Module::finalizeAndWrite(IWriter& _writer, const Grammar* _pGrammar)
 {
-	finalizeEntryPoints();
-
 	assignIDs(_pGrammar); // overwrites m_spvBound
 
+	finalizeEntryPoints();
+
 	return write(_writer);
 }
 
-- 
2.43.0


From a4b7faeccf247d28975985ed20e2b0317926f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 037/118] fix: addCapability ignored the secondary base
 capability

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index fca2206..5cccecf 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -320,7 +320,7 @@ void spvgentwo::Module::addCapability(spv::Capability _capability, bool _addDepe
 		}
 		if (cap.secondary != spv::Capability::Max)
 		{
-			addCapability(cap.primary, true);
+			addCapability(cap.secondary, true);
 		}
 	}
 
-- 
2.43.0


From 0068fc0c782bed7186c389bb64e35962a5ecbbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 038/118] fix: base capabilities missing from getBaseCapability

---
 lib/include/spvgentwo/SpvDefines.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 871fa93..10c61a1 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -375,9 +375,9 @@ namespace spvgentwo
 		case spv::Capability::FragmentShadingRateKHR: return spv::Capability::Shader;
 		//case spv::Capability::SubgroupBallotKHR:
 		case spv::Capability::DrawParameters: return spv::Capability::Shader;
-		//case spv::Capability::WorkgroupMemoryExplicitLayoutKHR: unkown
-		//case spv::Capability::WorkgroupMemoryExplicitLayout8BitAccessKHR: unkonwn
-		//case spv::Capability::WorkgroupMemoryExplicitLayout16BitAccessKHR: unkown
+		case spv::Capability::WorkgroupMemoryExplicitLayoutKHR: return spv::Capability::Shader;
+		case spv::Capability::WorkgroupMemoryExplicitLayout8BitAccessKHR: return spv::Capability::WorkgroupMemoryExplicitLayoutKHR;
+		case spv::Capability::WorkgroupMemoryExplicitLayout16BitAccessKHR: return spv::Capability::WorkgroupMemoryExplicitLayoutKHR;
 		//case spv::Capability::SubgroupVoteKHR:
 		//case spv::Capability::StorageBuffer16BitAccess: // same as StorageUniformBufferBlock16
 		case spv::Capability::UniformAndStorageBuffer16BitAccess: return spv::Capability::StorageBuffer16BitAccess; // same as StorageUniform16
@@ -430,9 +430,9 @@ namespace spvgentwo
 		case spv::Capability::SampledImageArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
 		case spv::Capability::StorageBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
 		case spv::Capability::StorageImageArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::InputAttachmentArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::UniformTexelBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::StorageTexelBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
+		case spv::Capability::InputAttachmentArrayNonUniformIndexing: return { spv::Capability::InputAttachment, spv::Capability::ShaderNonUniform };
+		case spv::Capability::UniformTexelBufferArrayNonUniformIndexing: return { spv::Capability::SampledBuffer, spv::Capability::ShaderNonUniform };
+		case spv::Capability::StorageTexelBufferArrayNonUniformIndexing: return { spv::Capability::ImageBuffer, spv::Capability::ShaderNonUniform };
 		case spv::Capability::RayTracingNV: return spv::Capability::Shader;
 		//case spv::Capability::VulkanMemoryModel:
 		//case spv::Capability::VulkanMemoryModelDeviceScope:
@@ -458,7 +458,7 @@ namespace spvgentwo
 		//case spv::Capability::AtomicFloat32MinMaxEXT: unknown
 		//case spv::Capability::AtomicFloat64MinMaxEXT: unknown
 		//case spv::Capability::AtomicFloat16MinMaxEXT: unknown
-		//case spv::Capability::VectorComputeINTEL: unknown
+		case spv::Capability::VectorComputeINTEL: return spv::Capability::VectorAnyINTEL;
 		//case spv::Capability::VectorAnyINTEL: unknown
 		//case spv::Capability::SubgroupAvcMotionEstimationINTEL:
 		//case spv::Capability::SubgroupAvcMotionEstimationIntraINTEL:
@@ -466,7 +466,7 @@ namespace spvgentwo
 		//case spv::Capability::VariableLengthArrayINTEL: unknown
 		//case spv::Capability::FunctionFloatControlINTEL: unknown
 		//case spv::Capability::FPGAMemoryAttributesINTEL: unknown
-		//case spv::Capability::FPFastMathModeINTEL: unknown
+		case spv::Capability::FPFastMathModeINTEL: return spv::Capability::Kernel;
 		//case spv::Capability::ArbitraryPrecisionIntegersINTEL: unknown
 		//case spv::Capability::UnstructuredLoopControlsINTEL:
 		//case spv::Capability::FPGALoopControlsINTEL:
@@ -483,6 +483,16 @@ namespace spvgentwo
 		case spv::Capability::AtomicFloat32AddEXT: return spv::Capability::Shader;
 		case spv::Capability::AtomicFloat64AddEXT: return spv::Capability::Shader;
 		//case spv::Capability::LongConstantCompositeINTEL: unknown
+		case spv::Capability::ShaderEnqueueAMDX: return spv::Capability::Shader;
+		case spv::Capability::MeshShadingEXT: return spv::Capability::Shader;
+		case spv::Capability::RayTracingPositionFetchKHR: return spv::Capability::Shader;
+		case spv::Capability::RayQueryPositionFetchKHR: return spv::Capability::Shader;
+		case spv::Capability::RayTracingMotionBlurNV: return spv::Capability::Shader;
+		case spv::Capability::RayTracingOpacityMicromapEXT: return { spv::Capability::RayQueryKHR, spv::Capability::RayTracingKHR };
+		case spv::Capability::ShaderInvocationReorderNV: return spv::Capability::RayTracingKHR;
+		case spv::Capability::DotProductInput4x8Bit: return spv::Capability::Int8;
+		case spv::Capability::GroupNonUniformRotateKHR: return spv::Capability::GroupNonUniform;
+		case spv::Capability::FPGAKernelAttributesv2INTEL: return spv::Capability::FPGAKernelAttributesINTEL;
 		default:
 			return spv::Capability::Max;
 		}
-- 
2.43.0


From 2e1cddf5c926c5798168d90d3cb592da8d5f76b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 039/118] fix: removing one of several identical types left the
 others with a dangling type

---
 lib/source/Module.cpp | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 5cccecf..7542dd9 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1555,23 +1555,40 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 
 void spvgentwo::Module::removeFromLookupMaps(const Instruction* _pInstr)
 {
-	if (auto itt = m_InstrToType.find(_pInstr); itt != m_InstrToType.end())
+	auto removeInfo = [_pInstr](auto& _instrToInfo, auto& _infoToInstr)
 	{
-		if(auto tti = m_TypeToInstr.find(*itt->value); tti != m_TypeToInstr.end())
+		auto info = _instrToInfo.find(_pInstr);
+		if (info == _instrToInfo.end()) return;
+
+		const auto* key = info->value;
+		_instrToInfo.erase(info);
+
+		// the key is shared with duplicates of _pInstr (modules read from a binary can contain identical types)
+		const Instruction* pDuplicate = nullptr;
+		for (const auto& [instr, otherKey] : _instrToInfo)
 		{
-			m_TypeToInstr.erase(tti);
+			if (otherKey == key)
+			{
+				pDuplicate = instr;
+				break;
+			}
 		}
-		m_InstrToType.erase(itt);
-	}
 
-	if (auto itc = m_InstrToConstant.find(_pInstr); itc != m_InstrToConstant.end())
-	{
-		if (auto cti = m_ConstantToInstr.find(*itc->value); cti != m_ConstantToInstr.end())
+		if (auto it = _infoToInstr.find(*key); it != _infoToInstr.end())
 		{
-			m_ConstantToInstr.erase(cti);
+			if (pDuplicate == nullptr)
+			{
+				_infoToInstr.erase(it);
+			}
+			else if (it->value == _pInstr)
+			{
+				it->value = const_cast<Instruction*>(pDuplicate);
+			}
 		}
-		m_InstrToConstant.erase(itc);
-	}
+	};
+
+	removeInfo(m_InstrToType, m_TypeToInstr);
+	removeInfo(m_InstrToConstant, m_ConstantToInstr);
 
 	m_NameLookup.eraseRange(_pInstr);
 }
-- 
2.43.0


From 7ba4e38151aa26eb17f38b2f77eec67c503e6c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 040/118] fix: addTypeInstr and addConstantInstr kept the
 address of the caller's Type or Constant

---
 lib/source/Module.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 7542dd9..0f406ca 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -684,8 +684,8 @@ spvgentwo::Instruction* spvgentwo::Module::addTypeInstr(const Type* _pType)
 
 	if (_pType != nullptr)
 	{
-		m_TypeToInstr.emplaceUnique(*_pType, instr);
-		m_InstrToType.emplaceUnique(instr, _pType);
+		auto& node = m_TypeToInstr.emplaceUnique(*_pType, instr);
+		m_InstrToType.emplaceUnique(instr, &node.kv.key);
 	}
 
 	return instr;
@@ -697,8 +697,8 @@ spvgentwo::Instruction* spvgentwo::Module::addConstantInstr(const Constant* _pCo
 
 	if (_pConstant != nullptr)
 	{
-		m_ConstantToInstr.emplaceUnique(*_pConstant, instr);
-		m_InstrToConstant.emplaceUnique(instr, _pConstant);
+		auto& node = m_ConstantToInstr.emplaceUnique(*_pConstant, instr);
+		m_InstrToConstant.emplaceUnique(instr, &node.kv.key);
 	}
 
 	return instr;
-- 
2.43.0


From 0d82ca614a0aabe5e9bc366b0229050b18e7c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 041/118] fix: removed instructions stayed in the type,
 constant and name lookups

---
 lib/source/BasicBlock.cpp | 1 +
 lib/source/Module.cpp     | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index b675d41..b2d6b73 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -173,6 +173,7 @@ bool spvgentwo::BasicBlock::remove(const Instruction* _pInstr)
 		{
 			if(it.operator->() == _pInstr)
 			{
+				getModule()->removeFromLookupMaps(_pInstr);
 				erase(it);
 				return true;
 			}
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 0f406ca..dea0018 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1600,11 +1600,12 @@ bool spvgentwo::Module::remove(const Instruction* _pInstr)
 		return false;
 	}
 
-	auto erase = [_pInstr](List<Instruction>& container) -> bool
+	auto erase = [_pInstr, this](List<Instruction>& container) -> bool
 	{
 		auto it = container.find_if([_pInstr](const Instruction& _instr) {return &_instr == _pInstr; });
 		if (it != container.end())
 		{
+			removeFromLookupMaps(_pInstr);
 			container.erase(it);
 			return true;
 		}
@@ -1635,6 +1636,7 @@ bool spvgentwo::Module::remove(const Instruction* _pInstr)
 		{
 			if (&value == _pInstr) 
 			{
+				removeFromLookupMaps(_pInstr);
 				m_ExtInstrImport.erase(m_ExtInstrImport.find(key));
 				return true;
 			}
-- 
2.43.0


From 710dbd24584e07f9a14225cf0938523d720b4bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 042/118] fix: removing a function replaced only the first use
 of it in an instruction

---
 lib/source/Module.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index dea0018..0b10c53 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -261,13 +261,14 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Module::remove(const Functio
 	{
 		auto gatherUse = [opFunction, opFunctionReplacement, &uses](Instruction& instr)
 		{
+			bool used = false;
 			for (auto it = instr.getFirstActualOperand(), end = instr.end(); it != end; ++it)
 			{
-				if (*it == opFunction) // need to check use of OpFunctionparameter?
+				if (*it == opFunction)
 				{
+					if (used == false) uses.emplace_back(&instr);
+					used = true;
 					*it = opFunctionReplacement;
-					uses.emplace_back(&instr);
-					break;
 				}
 			}
 		};
-- 
2.43.0


From af86272a1acbd03aa65e59cc2368173120e12df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 043/118] fix: names of a removed block became branch targets

---
 lib/source/Function.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index b4d1c9b..dda5ffc 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -174,11 +174,16 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Function::remove(const Basic
 	{
 		for (auto it = instr.getFirstActualOperand(), end = instr.end(); it != end; ++it)
 		{
-			if (*it == _pBB || *it == opLabel)
+			if (*it == _pBB)
 			{
 				uses.emplace_back(&instr);
 				*it = _pReplacement;
 			}
+			else if (*it == opLabel) // OpName, decorations
+			{
+				uses.emplace_back(&instr);
+				*it = _pReplacement != nullptr ? _pReplacement->getLabel() : nullptr;
+			}
 		}
 	};
 
-- 
2.43.0


From 0a17374a322d155fc6c1f2c9e3e0deb5338a8a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 044/118] fix: names and decorations of the content of removed
 functions and blocks were left behind

---
 lib/include/spvgentwo/Module.h |  3 +++
 lib/source/Function.cpp        |  5 ++++
 lib/source/Module.cpp          | 43 ++++++++++++++++++++++++++++++++++
 3 files changed, 51 insertions(+)

diff --git a/lib/include/spvgentwo/Module.h b/lib/include/spvgentwo/Module.h
index 5251822..71b6684 100644
--- a/lib/include/spvgentwo/Module.h
+++ b/lib/include/spvgentwo/Module.h
@@ -347,6 +347,9 @@ namespace spvgentwo
 		// remove _pInstr from type/constant and name lookup maps
 		void removeFromLookupMaps(const Instruction* _pInstr);
 
+		// remove names and decorations of _pInstr, remove it from type/constant and name lookup maps
+		void removeAnnotations(const Instruction* _pInstr);
+
 		// remove _pInstr if it is homed in this module, its functions and basic blocks, returns true if it was removed
 		bool remove(const Instruction* _pInstr);
 
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index dda5ffc..13f0127 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -158,6 +158,11 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Function::remove(const Basic
 	{
 		if (it.operator->() == _pBB)
 		{
+			m_pModule->removeFromLookupMaps(opLabel);
+			for (const Instruction& instr : *_pBB)
+			{
+				m_pModule->removeAnnotations(&instr);
+			}
 			erase(it);
 			found = true;
 			break;
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 0b10c53..8e6bc24 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -231,12 +231,31 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Module::remove(const Functio
 	const Instruction* opFunction = _pFunction->getFunction();
 	Instruction* opFunctionReplacement = _pReplacementToCall != nullptr ? _pReplacementToCall->getFunction() : nullptr;
 
+	// the function itself can be replaced, but what it consists of is gone
+	auto removeOwned = [this, _pFunction]()
+	{
+		removeFromLookupMaps(_pFunction->getFunction());
+		for (const Instruction& param : _pFunction->getParameters())
+		{
+			removeAnnotations(&param);
+		}
+		for (const BasicBlock& bb : *_pFunction)
+		{
+			removeAnnotations(bb.getLabel());
+			for (const Instruction& instr : bb)
+			{
+				removeAnnotations(&instr);
+			}
+		}
+	};
+
 	// remove from functions if its not an entry point
 	bool found = false;
 	for (auto it = m_Functions.begin(), end = m_Functions.end(); it != end; ++it)
 	{
 		if (it.operator->() == _pFunction)
 		{
+			removeOwned();
 			m_Functions.erase(it);
 			found = true;
 			break;
@@ -250,6 +269,7 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Module::remove(const Functio
 		{
 			if (it.operator->() == _pFunction)
 			{
+				removeOwned();
 				m_EntryPoints.erase(it);
 				found = true;
 				break;
@@ -1594,6 +1614,29 @@ void spvgentwo::Module::removeFromLookupMaps(const Instruction* _pInstr)
 	m_NameLookup.eraseRange(_pInstr);
 }
 
+void spvgentwo::Module::removeAnnotations(const Instruction* _pInstr)
+{
+	auto removeFrom = [_pInstr](List<Instruction>& _container)
+	{
+		for (auto it = _container.begin(); it != _container.end();)
+		{
+			auto target = it->getFirstActualOperand();
+			if (it->getOperation() != spv::Op::OpGroupDecorate && it->getOperation() != spv::Op::OpGroupMemberDecorate && target != it->end() && *target == _pInstr)
+			{
+				it = _container.erase(it);
+			}
+			else
+			{
+				++it;
+			}
+		}
+	};
+
+	removeFrom(m_Names);
+	removeFrom(m_Decorations);
+	removeFromLookupMaps(_pInstr);
+}
+
 bool spvgentwo::Module::remove(const Instruction* _pInstr)
 {
 	if (_pInstr == nullptr || _pInstr->getModule() != this)
-- 
2.43.0


From 2b4cd2aaedcecf5f278226792d4782ac3cf7d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 045/118] fix: moving a module dropped its generator word

---
 lib/source/Module.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 8e6bc24..1a5490e 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -59,6 +59,7 @@ spvgentwo::Module::Module(Module&& _other) noexcept:
 	m_pLogger(_other.m_pLogger),
 	m_pTypeInferenceAndVailation(_other.m_pTypeInferenceAndVailation),
 	m_spvVersion(_other.m_spvVersion),
+	m_spvGenerator(_other.m_spvGenerator),
 	m_spvBound(_other.m_spvBound),
 	m_spvSchema(_other.m_spvSchema),
 	m_Functions(stdrep::move(_other.m_Functions)),
@@ -94,6 +95,7 @@ spvgentwo::Module& spvgentwo::Module::operator=(Module&& _other) noexcept
 	m_pLogger = _other.m_pLogger;
 	m_pTypeInferenceAndVailation = _other.m_pTypeInferenceAndVailation;
 	m_spvVersion = _other.m_spvVersion;
+	m_spvGenerator = _other.m_spvGenerator;
 	m_spvBound = _other.m_spvBound;
 	m_spvSchema = _other.m_spvSchema;
 	m_Functions = stdrep::move(_other.m_Functions);
-- 
2.43.0


From 59c20de5302686473257fc18110c502947f878c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 046/118] fix: reset left a module with another version than a
 new one

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 1a5490e..9abe5be 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -173,7 +173,7 @@ spvgentwo::Module::~Module()
 
 void spvgentwo::Module::reset()
 {
-	m_spvVersion = spv::Version;
+	m_spvVersion = makeVersion(1u, 0u);
 	m_spvGenerator = GeneratorId;
 	m_spvBound = 0u;
 	m_spvSchema = 0u;
-- 
2.43.0


From 6c26e98bd7e4b96b0c73441e1e6eae337f7d418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 047/118] fix: a failed allocation moved
 ExternalMemoryAllocator out of its buffer

---
 common/source/ExternalMemoryAllocator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/source/ExternalMemoryAllocator.cpp b/common/source/ExternalMemoryAllocator.cpp
index 362e370..87914e8 100644
--- a/common/source/ExternalMemoryAllocator.cpp
+++ b/common/source/ExternalMemoryAllocator.cpp
@@ -4,7 +4,10 @@ void* spvgentwo::ExternalMemoryAllocator::allocate(sgt_size_t _bytes, unsigned i
 {
 	const auto capacity = static_cast<sgt_size_t>(static_cast<const char*>(m_pEnd) - static_cast<const char*>(m_pCurrent));
 	void* ptr = alignPowerOf2(_aligment, _bytes, m_pCurrent, capacity);
-	m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	if (ptr != nullptr)
+	{
+		m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	}
 	return ptr;
 }
 
-- 
2.43.0


From 880884685583683bec2d409d15800bd7ac3a6a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 048/118] fix: ModuleFuncPrinter without a constant function
 did not compile

---
 common/include/common/ModulePrinter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/ModulePrinter.h b/common/include/common/ModulePrinter.h
index 50dc743..84ed637 100644
--- a/common/include/common/ModulePrinter.h
+++ b/common/include/common/ModulePrinter.h
@@ -17,7 +17,7 @@ namespace spvgentwo
 		{
 			struct EmptyConstantPrintFunc
 			{
-				constexpr bool append([[maybe_unused]] const Constant& _constant, [[maybe_unused]] const char* _pushColor, [[maybe_unused]] const char* _popColor) const { return false; }
+				constexpr bool operator()([[maybe_unused]] const Constant& _constant, [[maybe_unused]] const char* _pushColor, [[maybe_unused]] const char* _popColor) const { return false; }
 			};
 
 			constexpr auto PushRed = u8"\x1B[31m";
-- 
2.43.0


From 1aef9e7387b2291b256ed0a0e2d8edc299473f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 049/118] fix: printing dropped the operands of masks with
 several bits

---
 common/source/ModulePrinter.cpp | 46 ++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 01e0d4e..7f350a6 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -324,26 +324,48 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 		}
 		else if (Grammar::hasOperandParameters(info.kind))
 		{
-			if (auto* params = _grammar.getOperandParameters(info.kind, it->getLiteral()); params != nullptr)
-			{
-				auto pit = params->begin();
-				auto pend = params->end();
+			const unsigned int enumVal = it->getLiteral();
+			++it;
 
-				for (++it; it != end && pit != pend; ++pit)
+			auto printParameters = [&](const unsigned int _value)
+			{
+				if (auto* params = _grammar.getOperandParameters(info.kind, _value); params != nullptr)
 				{
-					if (pit->kind == Grammar::OperandKind::LiteralString)
+					auto pit = params->begin();
+					auto pend = params->end();
+
+					for (; it != end && pit != pend; ++pit)
 					{
-						_printer << " \"";
-						it = appendLiteralString(_printer, it, end, colors.string, colors.defaultText);
-						_printer << "\"";
+						if (pit->kind == Grammar::OperandKind::LiteralString)
+						{
+							_printer << " \"";
+							it = appendLiteralString(_printer, it, end, colors.string, colors.defaultText);
+							_printer << "\"";
 
-						continue;
+							continue;
+						}
+
+						success &= printOperand(_instr, *it, *pit, _grammar, _printer, _options);
+						++it;
 					}
+				}
+			};
 
-					success &= printOperand(_instr, *it, *pit, _grammar, _printer, _options);
-					++it;
+			if (info.category == Grammar::OperandCategory::BitEnum)
+			{
+				// parameters follow the mask in the order of the bits that ask for them
+				for (unsigned int bit = 1u; bit != 0u; bit <<= 1u)
+				{
+					if ((enumVal & bit) != 0u)
+					{
+						printParameters(bit);
+					}
 				}
 			}
+			else
+			{
+				printParameters(enumVal);
+			}
 		}
 		else if (info.quantifier == Grammar::Quantifier::ZeroOrAny)
 		{
-- 
2.43.0


From 0584aa6a26e1f06a9430b4cdfb357e83230c9314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 050/118] fix: printing dropped the high word of numbers of two
 words

---
 common/source/ModulePrinter.cpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 7f350a6..c259cbd 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -167,14 +167,6 @@ namespace
 					return true;
 				}
 			}
-			else if (_info.kind == Grammar::OperandKind::LiteralContextDependentNumber && _instr.isSpecOrConstant() && (_options & ModulePrinter::PrintOptionsBits::ConstantData))
-			{
-				if (const Constant* c = _instr.getConstant(); c != nullptr)
-				{
-					if (_printer.append(*c, colors.constant, colors.defaultText))
-						return true;
-				}
-			}
 
 			//fallback
 			_printer.append(op.literal.value, colors.literal, colors.defaultText);
@@ -295,6 +287,25 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 			}
 		}
 
+		if (info.kind == Grammar::OperandKind::LiteralContextDependentNumber && _instr.isSpecOrConstant())
+		{
+			_printer << " ";
+			if (const Constant* c = (_options & PrintOptionsBits::ConstantData) ? _instr.getConstant() : nullptr; c != nullptr && _printer.append(*c, colors.constant, colors.defaultText))
+			{
+				it = end; // the value takes all remaining words
+			}
+			else
+			{
+				_printer.append(it->getLiteral().value, colors.literal, colors.defaultText);
+				for (++it; it != end; ++it)
+				{
+					success &= printOperand(_instr, *it, info, _grammar, _printer, _options);
+				}
+			}
+
+			continue;
+		}
+
 		success &= printOperand(_instr, *it, info, _grammar, _printer, _options);
 		// need to increment 'it' after this part
 
-- 
2.43.0


From 07528b6ad03b67a1f71d994131a2ae9ecba11191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 051/118] fix: printing operations of specialization constants
 failed without result ids

---
 common/source/ModulePrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index c259cbd..9935b4b 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -330,7 +330,7 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 			}
 
 			_printer << " [";
-			success &= printInstruction(constInstr, _grammar, _printer, _options ^ PrintOptionsBits::ResultId, nullptr);
+			success &= printInstruction(constInstr, _grammar, _printer, (_options | PrintOptionsBits::ResultId) ^ PrintOptionsBits::ResultId, nullptr); // has no result id
 			_printer << "]";
 		}
 		else if (Grammar::hasOperandParameters(info.kind))
-- 
2.43.0


From 790183e4f04713a8a8e41bf13d60ccebd7a78ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 052/118] fix: printed floating point constants lost small and
 large values

---
 common/source/ModulePrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 9935b4b..2e84dd0 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -456,8 +456,8 @@ bool spvgentwo::ModulePrinter::IModulePrinter::append(const Constant& _constant,
 	if (!printed && t.isU16())	printed = printConstData<unsigned short>(_constant, buf, "%u");
 	if (!printed && t.isU32())	printed = printConstData<unsigned int>(_constant, buf, "%u");
 	if (!printed && t.isU64())	printed = printConstData<unsigned long long>(_constant, buf, "%llu");
-	if (!printed && t.isF32())	printed = printConstData<float>(_constant, buf, "%f");
-	if (!printed && t.isF64())	printed = printConstData<double>(_constant, buf, "%f");
+	if (!printed && t.isF32())	printed = printConstData<float>(_constant, buf, "%.9g"); // all digits of the value
+	if (!printed && t.isF64())	printed = printConstData<double>(_constant, buf, "%.17g");
 
 	if (printed)
 	{
-- 
2.43.0


From a721cbe134d596124288e3d61da47aef628ac6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 053/118] fix: removing the linkage capability and assigning
 ids shared one linker option bit

---
 common/include/common/LinkerHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/LinkerHelper.h b/common/include/common/LinkerHelper.h
index cd669d7..45e2465 100644
--- a/common/include/common/LinkerHelper.h
+++ b/common/include/common/LinkerHelper.h
@@ -42,7 +42,7 @@ namespace spvgentwo
 			ImportReferencedVariables = 1 << 6, // global variables referenced in (auto) imported functions
 			ImportReferencedStrings = 1 << 7, // global strings referenced in OpLine etc
 			AssignResultIDs = 1 << 8, // on-the-fligh assing ResultIds while transfering instructions from lib to consumber module (leaves original IDs intact, can improve performance if module.assignIDs() is not used)
-			RemoveLinkageCapability = 1 << 8, // remove linkage capability from the consumer library if all imports and exports have been resolved
+			RemoveLinkageCapability = 1 << 9, // remove linkage capability from the consumer library if all imports and exports have been resolved
 			AutoAddRequiredCapabilitiesAndExtensions = 1 << 10, // instead of copying ALL Capabilities & Extensions from the all libs to the consumer module, use LinkerOptions.grammar to select only required Caps & Exts for the consumer module.
 			UpdateEntryPointGlobalVarInterface = 1 << 11, // Add global variables referenced by the consumer EntryPoints to their OpEntryPoint, this should always be switched on unless Module.finalizeEntryPoints() is called after linking.
 			CopyOpSourceStringInstructions = 1 << 12, // Copy OpString, OpSource, OpSourceContinued and OpSourceExtension instructions from lib to consumer module
-- 
2.43.0


From b4e1c4720b4774856daf0ae7a997ab94f46a0a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 054/118] fix: linked functions referred to their blocks as
 instructions instead of branch targets

---
 common/source/LinkerHelper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 4fbd87e..2795f33 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -383,6 +383,12 @@ namespace
 			else if (it->isBranchTarget())
 			{
 				if (lookupOperand(it->getBranchTarget()->getLabel()) == false) return false;
+
+				// keep branch targets as such
+				if (Operand& op = _pTarget->back(); op.isInstruction() && op.getInstruction()->getBasicBlock() != nullptr)
+				{
+					op = Operand(op.getInstruction()->getBasicBlock());
+				}
 			}
 			else
 			{
-- 
2.43.0


From 2922a87dc749d542ac749ecb994386577d0771d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 055/118] fix: linking failed on functions with references to
 later instructions

---
 common/source/LinkerHelper.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 2795f33..a01775d 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -201,7 +201,8 @@ namespace
 		using namespace spvgentwo;
 		using namespace LinkerHelper;
 
-		if (_cache.find(_pLibInstr) != _cache.end())
+		// already transferred (instructions of functions are cached before they are transferred, see transferFunction)
+		if (Instruction** ppTarget = _cache[_pLibInstr]; ppTarget != nullptr && *ppTarget != _pTarget)
 		{
 			return true;
 		}
@@ -410,9 +411,11 @@ namespace
 
 		printInstruction(_options, _lBB.getLabel(), " -> ", _cBB.getLabel());
 
+		auto cit = _cBB.begin();
 		for (const spvgentwo::Instruction& lInstr : _lBB)
 		{
-			success &= transferInstruction(&lInstr, _cBB.addInstruction(), _cache, _options);
+			success &= transferInstruction(&lInstr, cit.operator->(), _cache, _options);
+			++cit;
 		}
 
 		return success;
@@ -471,6 +474,12 @@ namespace
 		{
 			auto& cBB = _cFunc.addBasicBlock();
 			_cache.emplaceUnique(lBB.getLabel(), assignId(cBB.getLabel(), _options));
+
+			// instructions can be referenced before they are transferred (OpPhi)
+			for (const spvgentwo::Instruction& lInstr : lBB)
+			{
+				_cache.emplaceUnique(&lInstr, cBB.addInstruction());
+			}
 		}
 
 		for(auto lit = _lFunc.begin(), cit = _cFunc.begin(); lit != _lFunc.end(); ++lit, ++cit)
-- 
2.43.0


From 3965e38fe1ce51db711c51863eed0bf754b40264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 056/118] fix: linking declared spec constants and variables
 before the instructions they refer to

---
 common/source/LinkerHelper.cpp | 239 +++++++++++++++++++--------------
 1 file changed, 136 insertions(+), 103 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index a01775d..674917b 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -196,20 +196,14 @@ namespace
 		return instr;
 	}
 
-	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options);
+
+	// finds the consumer instruction of lib, an operand of _pLibInstr, transfers it if necessary, returns nullptr on error
+	inline spvgentwo::Instruction* lookupInstruction(const spvgentwo::Instruction* _pLibInstr, const spvgentwo::Instruction* lib, spvgentwo::Module* module, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
 	{
 		using namespace spvgentwo;
 		using namespace LinkerHelper;
 
-		// already transferred (instructions of functions are cached before they are transferred, see transferFunction)
-		if (Instruction** ppTarget = _cache[_pLibInstr]; ppTarget != nullptr && *ppTarget != _pTarget)
-		{
-			return true;
-		}
-
-		Module* module = _pTarget->getModule();
-		if (module == nullptr) { return false; }
-
 		auto getInstrName = [&_options](const Instruction* instr, const char* alt = nullptr) -> const char*
 		{
 			if (_options.grammar != nullptr)
@@ -231,132 +225,170 @@ namespace
 
 		auto error = [module](auto&& ... args) {module->logError(args...); };
 
-		// instruction parent must be be set before calling this function
-		_pTarget->setOperation(_pLibInstr->getOperation());
-
-		auto lookupOperand = [&](const Instruction* lib) -> bool
+		auto operandError = [&](const char* operandInstrName = "", const char* hint = "")
 		{
-			auto operandError = [&](const char* operandInstrName = "", const char* hint = "")
-			{
-				error("[%%%u = %s] operand '%s' %s not found! %s", _pLibInstr->getResultId(), getInstrName(_pLibInstr, ""), getSymbolName(lib), getInstrName(lib, operandInstrName), hint);
-			};
+			error("[%%%u = %s] operand '%s' %s not found! %s", _pLibInstr->getResultId(), getInstrName(_pLibInstr, ""), getSymbolName(lib), getInstrName(lib, operandInstrName), hint);
+		};
 
-			Instruction* cInstr = nullptr;
+		// transfers lib once everything it refers to has been declared
+		auto transfer = [&](auto add) -> Instruction*
+		{
+			auto declare = [&](const Instruction* operand) { return operand == nullptr || lookupInstruction(lib, operand, module, _cache, _options) != nullptr; };
 
-			bool reported = false;
-			bool cached = false;
+			if (lib->hasResultType() && declare(lib->getResultTypeInstr()) == false) return nullptr;
 
-			if (Instruction** ppTarget = _cache[lib]; ppTarget != nullptr)
+			for (auto it = lib->getFirstActualOperand(), end = lib->end(); it != end; ++it)
 			{
-				cInstr = *ppTarget;
-				cached = true;
+				if (it->isInstruction() && declare(it->getInstruction()) == false) return nullptr;
 			}
-			else if (lib->isSpecOrConstant())
+
+			Instruction* target = add();
+			return transferInstruction(lib, target, _cache, _options) ? target : nullptr;
+		};
+
+		Instruction* cInstr = nullptr;
+
+		bool reported = false;
+		bool cached = false;
+
+		if (Instruction** ppTarget = _cache[lib]; ppTarget != nullptr)
+		{
+			cInstr = *ppTarget;
+			cached = true;
+		}
+		else if (lib->isSpecOrConstant())
+		{
+			if ( _options & LinkerOptionBits::ImportMissingConstants )
 			{
-				if ( _options & LinkerOptionBits::ImportMissingConstants )
+				if ( const Constant* c = lib->getConstant(); c != nullptr && lib->isSpecConstant() == false )
 				{
-					if ( const Constant* c = lib->getConstant(); c != nullptr )
-					{
-						cInstr = addTypeOrConstants([&]() { return module->addConstant(*c); }, *module, _options);
-					}
-					else // fallback to generic transfer for spec constants
-					{
-						cInstr = module->addConstantInstr();
-						if ( transferInstruction(lib, cInstr, _cache, _options) == false ) return false;
-						cached = true;
-					}				
+					cInstr = addTypeOrConstants([&]() { return module->addConstant(*c); }, *module, _options);
 				}
-				else
+				else // fallback to generic transfer for spec constants
 				{
-					operandError("Op(Spec)Constant", "Use \'ImportMissingConstants\'.");
-					reported = true;
-				}
+					cInstr = transfer([&]() { return module->addConstantInstr(c); });
+					if ( cInstr == nullptr ) return nullptr;
+					cached = true;
+				}				
 			}
-			else if (lib->isType())
+			else
 			{
-				if (const Type* t = lib->getType(); t != nullptr && (_options & LinkerOptionBits::ImportMissingTypes))
-				{
-					cInstr = addTypeOrConstants([&]() { return module->addType(*t); }, *module, _options);
-				}
-				else
-				{
-					operandError("OpType", "Use \'ImportMissingTypes\'.");
-					reported = true;
-				}
+				operandError("Op(Spec)Constant", "Use \'ImportMissingConstants\'.");
+				reported = true;
 			}
-			else if(*lib == spv::Op::OpVariable)
+		}
+		else if (lib->isType())
+		{
+			if (const Type* t = lib->getType(); t != nullptr && (_options & LinkerOptionBits::ImportMissingTypes))
 			{
-				if(lib->getStorageClass() != spv::StorageClass::Function && (_options & LinkerOptionBits::ImportReferencedVariables))
-				{
-					cInstr = module->addGlobalVariableInstr();
-					if (transferInstruction(lib, cInstr, _cache, _options) == false) return false;
-					cached = true;
-				}
-				else
-				{
-					operandError("OpVariable", "Use \'ImportReferencedVariables\'.");
-					reported = true;
-				}	
+				cInstr = addTypeOrConstants([&]() { return module->addType(*t); }, *module, _options);
 			}
-			else if (*lib == spv::Op::OpString)
+			else
 			{
-				if (_options & LinkerOptionBits::ImportReferencedStrings)
-				{
-					cInstr = module->addSourceStringInstr();
-					if (transferInstruction(lib, cInstr, _cache, _options) == false) return false;
-					cached = true;
-				}
-				else
-				{
-					operandError("OpString", "Use \'ImportReferencedStrings\'.");
-					reported = true;
-				}
+				operandError("OpType", "Use \'ImportMissingTypes\'.");
+				reported = true;
+			}
+		}
+		else if(*lib == spv::Op::OpVariable)
+		{
+			if(lib->getStorageClass() != spv::StorageClass::Function && (_options & LinkerOptionBits::ImportReferencedVariables))
+			{
+				cInstr = transfer([&]() { return module->addGlobalVariableInstr(); });
+				if (cInstr == nullptr) return nullptr;
+				cached = true;
 			}
-			else if (*lib == spv::Op::OpFunction)
+			else
 			{
-				operandError("OpFunction", "Use \'ImportReferencedFunctions\'.");
+				operandError("OpVariable", "Use \'ImportReferencedVariables\'.");
 				reported = true;
+			}	
+		}
+		else if (*lib == spv::Op::OpString)
+		{
+			if (_options & LinkerOptionBits::ImportReferencedStrings)
+			{
+				cInstr = transfer([&]() { return module->addSourceStringInstr(); });
+				if (cInstr == nullptr) return nullptr;
+				cached = true;
 			}
-			else if (*lib == spv::Op::OpExtInstImport)
+			else
 			{
-				if (_options & LinkerOptionBits::ImportMissingExtensionSets)
+				operandError("OpString", "Use \'ImportReferencedStrings\'.");
+				reported = true;
+			}
+		}
+		else if (*lib == spv::Op::OpFunction)
+		{
+			operandError("OpFunction", "Use \'ImportReferencedFunctions\'.");
+			reported = true;
+		}
+		else if (*lib == spv::Op::OpExtInstImport)
+		{
+			if (_options & LinkerOptionBits::ImportMissingExtensionSets)
+			{
+				for (const auto& [name, instr] : lib->getModule()->getExtInstrImports())
 				{
-					for (const auto& [name, instr] : lib->getModule()->getExtInstrImports())
+					if (&instr == lib) // this is the extension we are looking for
 					{
-						if (&instr == lib) // this is the extension we are looking for
-						{
-							cInstr = module->addExtensionInstructionImport(name.c_str()); // unique add / lookup
-							break;
-						}
+						cInstr = module->addExtensionInstructionImport(name.c_str()); // unique add / lookup
+						break;
 					}
 				}
-				else
-				{
-					operandError("OpExtInstImport", "Use \'ImportMissingExtensionSets\'.");
-					reported = true;
-				}
 			}
+			else
+			{
+				operandError("OpExtInstImport", "Use \'ImportMissingExtensionSets\'.");
+				reported = true;
+			}
+		}
 
-			if (cInstr != nullptr)
+		if (cInstr != nullptr)
+		{
+			if (cached == false)
 			{
-				if (cached == false)
+				_cache.emplaceUnique(lib, cInstr);
+				if (_options & LinkerOptionBits::AssignResultIDs)
 				{
-					_cache.emplaceUnique(lib, cInstr);
-					if (_options & LinkerOptionBits::AssignResultIDs)
-					{
-						cInstr->assignResultId(false);
-					}
-
-					printInstruction(_options, lib, " -> ", cInstr);				
+					cInstr->assignResultId(false);
 				}
 
-				_pTarget->addOperand(cInstr);
-				return true;
+				printInstruction(_options, lib, " -> ", cInstr);				
 			}
 
-			if (reported == false)
+			return cInstr;
+		}
+
+		if (reported == false)
+		{
+			operandError();
+		}
+
+		return nullptr;
+	}
+
+	bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	{
+		using namespace spvgentwo;
+		using namespace LinkerHelper;
+
+		// already transferred (instructions of functions are cached before they are transferred, see transferFunction)
+		if (Instruction** ppTarget = _cache[_pLibInstr]; ppTarget != nullptr && *ppTarget != _pTarget)
+		{
+			return true;
+		}
+
+		Module* module = _pTarget->getModule();
+		if (module == nullptr) { return false; }
+
+		// instruction parent must be be set before calling this function
+		_pTarget->setOperation(_pLibInstr->getOperation());
+
+		auto lookupOperand = [&](const Instruction* lib) -> bool
+		{
+			if (Instruction* cInstr = lookupInstruction(_pLibInstr, lib, module, _cache, _options); cInstr != nullptr)
 			{
-				operandError();
+				_pTarget->addOperand(cInstr);
+				return true;
 			}
 
 			return false;
@@ -393,7 +425,8 @@ namespace
 			}
 			else
 			{
-				error("[%s] %s has unresolved ID operand, module needs to be resolved by resolveIDs() before importing a using it as import library.", getInstrName(_pLibInstr, ""), getSymbolName(_pLibInstr));
+				const char* name = _pLibInstr->getName();
+				module->logError("[%u] %s has unresolved ID operand, module needs to be resolved by resolveIDs() before importing a using it as import library.", static_cast<unsigned int>(_pLibInstr->getOperation()), name != nullptr ? name : "UNNAMED");
 				return false;
 			}
 		}
-- 
2.43.0


From dd91223644673169bf0772fa11139fbd477f52e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 057/118] fix: linking failed on functions that use an OpUndef
 of module scope

---
 common/source/LinkerHelper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 674917b..5a2af4c 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -303,6 +303,12 @@ namespace
 				reported = true;
 			}	
 		}
+		else if (*lib == spv::Op::OpUndef)
+		{
+			cInstr = transfer([&]() { return module->addUndefInstr(); });
+			if (cInstr == nullptr) return nullptr;
+			cached = true;
+		}
 		else if (*lib == spv::Op::OpString)
 		{
 			if (_options & LinkerOptionBits::ImportReferencedStrings)
-- 
2.43.0


From fcd8561f642e8a0b9e785420561691db6ce6aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 058/118] fix: linking turned the name of a struct into the
 name of a member

---
 common/source/LinkerHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 5a2af4c..811d548 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -790,7 +790,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 				{
 					for (const auto& n : _lib.getNameLookupMap().getRange(lTarget))
 					{
-						if (*lTarget == spv::Op::OpTypeStruct)
+						if (n.kv.value.member != sgt_uint32_max)
 						{
 							_consumer.addMemberName(cTarget, n.kv.value.name.c_str(), n.kv.value.member);
 						}
-- 
2.43.0


From f365ecf6abf863d3c1b004445e0f6816087daa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 059/118] fix: linking did not assign ids to types of
 signatures

---
 common/source/LinkerHelper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 811d548..91126f2 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -180,7 +180,7 @@ namespace
 		auto prev = tac.last();
 		Instruction* instr = _func();
 
-		for (auto end = tac.end(), it = prev; it != end; ++it)
+		for (auto end = tac.end(), it = prev != nullptr ? prev : tac.begin(); it != end; ++it)
 		{
 			if (_options & LinkerHelper::LinkerOptionBits::AssignResultIDs)
 			{
@@ -470,6 +470,7 @@ namespace
 		// create function signature
 		if (_cFunc.isFinalized() == false) // Function return type
 		{
+			addTypeOrConstants([&]() { return consumer.addType(_lFunc.getReturnType()); }, consumer, _options);
 			_cFunc.setReturnType(_lFunc.getReturnType());
 		}
 
@@ -489,8 +490,8 @@ namespace
 
 		if(_cFunc.isFinalized() == false) // create OpFunction
 		{
-			_cFunc.finalize(_lFunc.getFunctionControl());
 			addTypeOrConstants([&]() { return consumer.addType(_cFunc.getFunctionType()); }, consumer, _options);
+			_cFunc.finalize(_lFunc.getFunctionControl());
 		}
 
 		_cache.emplaceUnique(_lFunc.getFunction(), assignId(_cFunc.getFunction(), _options)); // OpFunction
-- 
2.43.0


From 550088d0a6e7279bff3e75076ac83c540bd75758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:40 +0000
Subject: [PATCH 060/118] fix: linking failed on symbols that refer to each
 other and gave up imports after one that failed

---
 common/source/LinkerHelper.cpp | 278 ++++++++++++++++++++++++---------
 1 file changed, 206 insertions(+), 72 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 91126f2..c8cc6a2 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -532,10 +532,101 @@ namespace
 		return success;
 	}
 
-	inline bool importSymbolImpl(spvgentwo::Module& _consumer, const spvgentwo::Instruction* _libSymbol, spvgentwo::Instruction* _consumerSymbol, const spvgentwo::String& _name, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	using InstrSet = spvgentwo::HashMap<const spvgentwo::Instruction*, bool>;
+
+	// checks if the (function) instruction _lib and everything it refers to can be transferred with the selected options, collects called functions which are not yet part of the consumer
+	bool canTransferDefinition(const spvgentwo::Instruction* _lib, spvgentwo::Module& _consumer, const InstrLookup& _cache, InstrSet& _visited, spvgentwo::List<const spvgentwo::Function*>& _called, spvgentwo::LinkerHelper::LinkerOptions _options)
 	{
-		bool success = true;
+		using namespace spvgentwo;
+		using namespace LinkerHelper;
+
+		auto require = [&](const Instruction* instr, LinkerOptionBits bit, const char* option) -> bool
+		{
+			if (_options & bit)
+			{
+				return true;
+			}
+
+			const char* name = instr->getName();
+			_consumer.logError("'%s' [%%%u] is required but can not be imported! Use '%s'.", name != nullptr ? name : "UNNAMED", instr->getResultId(), option);
+			return false;
+		};
+
+		auto canTransfer = [&](const Instruction* instr) -> bool
+		{
+			if (instr == nullptr || _cache.find(instr) != _cache.end() || _visited.find(instr) != _visited.end())
+			{
+				return true;
+			}
+			_visited.emplaceUnique(instr, true);
+
+			if (instr->isType())
+			{
+				return require(instr, LinkerOptionBits::ImportMissingTypes, "ImportMissingTypes");
+			}
+			else if (instr->isSpecOrConstant())
+			{
+				if (require(instr, LinkerOptionBits::ImportMissingConstants, "ImportMissingConstants") == false) return false;
+				// constants are added with everything they consist of
+				return instr->isSpecConstant() == false || canTransferDefinition(instr, _consumer, _cache, _visited, _called, _options);
+			}
+			else if (*instr == spv::Op::OpFunction)
+			{
+				if (require(instr, LinkerOptionBits::ImportReferencedFunctions, "ImportReferencedFunctions") == false) return false;
+				_called.emplace_back(instr->getFunction());
+				return canTransferDefinition(instr, _consumer, _cache, _visited, _called, _options);
+			}
+			else if (instr->getFunction() != nullptr)
+			{
+				return true; // part of the function
+			}
+			else if (*instr == spv::Op::OpVariable)
+			{
+				if (require(instr, LinkerOptionBits::ImportReferencedVariables, "ImportReferencedVariables") == false) return false;
+			}
+			else if (*instr == spv::Op::OpString)
+			{
+				return require(instr, LinkerOptionBits::ImportReferencedStrings, "ImportReferencedStrings");
+			}
+			else if (*instr == spv::Op::OpExtInstImport)
+			{
+				return require(instr, LinkerOptionBits::ImportMissingExtensionSets, "ImportMissingExtensionSets");
+			}
+
+			return canTransferDefinition(instr, _consumer, _cache, _visited, _called, _options);
+		};
+
+		auto canTransferOperands = [&](const Instruction& instr) -> bool
+		{
+			if (instr.hasResultType() && canTransfer(instr.getResultTypeInstr()) == false) return false;
 
+			for (auto it = instr.getFirstActualOperand(), end = instr.end(); it != end; ++it)
+			{
+				if (it->isInstruction() && canTransfer(it->getInstruction()) == false) return false;
+			}
+
+			return true;
+		};
+
+		if (*_lib == spv::Op::OpFunction)
+		{
+			for (const BasicBlock& bb : *_lib->getFunction())
+			{
+				for (const Instruction& instr : bb)
+				{
+					if (canTransferOperands(instr) == false) return false;
+				}
+			}
+
+			return true;
+		}
+
+		return canTransferOperands(*_lib);
+	}
+
+	// checks that both symbols are of the same kind and type
+	inline bool matchSymbol(spvgentwo::Module& _consumer, const spvgentwo::Instruction* _libSymbol, const spvgentwo::Instruction* _consumerSymbol, const spvgentwo::String& _name, spvgentwo::LinkerHelper::LinkerOptions _options)
+	{
 		using namespace spvgentwo;
 		using namespace LinkerHelper;
 
@@ -575,27 +666,59 @@ namespace
 			const Type* libType = _libSymbol->getType();
 			const Type* consumerType = _consumerSymbol->getType();
 
-			if (checkType(*libType, *consumerType) == false) return false;
-
-			printInstruction(_options, _libSymbol, " -> ", _consumerSymbol);
-			_cache.emplaceUnique(_libSymbol, _consumerSymbol);
+			return checkType(*libType, *consumerType);
 		}
 		else if (*_libSymbol == spv::Op::OpFunction && _libSymbol->getFunction() != nullptr && _consumerSymbol->getFunction() != nullptr)
 		{
-			const Function& libFunc = *_libSymbol->getFunction();
-			Function& cosumerFunc = *_consumerSymbol->getFunction();
+			return checkType(_libSymbol->getFunction()->getFunctionType(), _consumerSymbol->getFunction()->getFunctionType());
+		}
+
+		error("Symbol %s must be OpVariable or OpFunction", _name.c_str());
+		return false;
+	}
+
+	// make the symbol (and its signature) known before anything that refers to it is transferred
+	inline void registerSymbol(const spvgentwo::Instruction* _libSymbol, spvgentwo::Instruction* _consumerSymbol, InstrLookup& _cache)
+	{
+		using namespace spvgentwo;
+
+		_cache.emplaceUnique(_libSymbol, _consumerSymbol);
+		_cache.emplaceUnique(_libSymbol->getResultTypeInstr(), _consumerSymbol->getResultTypeInstr());
+
+		if (*_libSymbol == spv::Op::OpFunction)
+		{
+			const auto& lParams = _libSymbol->getFunction()->getParameters();
+			const auto& cParams = _consumerSymbol->getFunction()->getParameters();
 
-			if (checkType(libFunc.getFunctionType(), cosumerFunc.getFunctionType()) == false) return false;
+			for (auto lit = lParams.begin(), cit = cParams.begin(); lit != lParams.end() && cit != cParams.end(); ++lit, ++cit)
+			{
+				_cache.emplaceUnique(lit->getResultTypeInstr(), cit->getResultTypeInstr());
+			}
+		}
+	}
+
+	inline bool importSymbolImpl(spvgentwo::Module& _consumer, const spvgentwo::Instruction* _libSymbol, spvgentwo::Instruction* _consumerSymbol, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	{
+		using namespace spvgentwo;
 
-			success &= transferFunction(libFunc, cosumerFunc, _cache, _options);
+		if (*_libSymbol == spv::Op::OpFunction)
+		{
+			return transferFunction(*_libSymbol->getFunction(), *_consumerSymbol->getFunction(), _cache, _options);
 		}
-		else
+
+		printInstruction(_options, _libSymbol, " -> ", _consumerSymbol);
+
+		// the import becomes the definition, including its initializer
+		auto lit = _libSymbol->getFirstActualOperand();
+		auto cit = _consumerSymbol->getFirstActualOperand();
+		if (++lit != _libSymbol->end() && ++cit == _consumerSymbol->end())
 		{
-			error("Symbol %s must be OpVariable or OpFunction", _name.c_str());
-			return false;
+			Instruction* initializer = lookupInstruction(_libSymbol, lit->getInstruction(), &_consumer, _cache, _options);
+			if (initializer == nullptr) return false;
+			_consumerSymbol->addOperand(initializer);
 		}
 
-		return success;
+		return true;
 	}
 } // anon namespace
 
@@ -633,8 +756,6 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	List<ImportSymbol> iVars(pAllocator);
 	List<ImportSymbol> iFuncs(pAllocator);
 
-	bool hasExports = false;
-
 	// gather symbols to import
 	for (auto it = _consumer.getDecorations().begin(), end = _consumer.getDecorations().end(); it != end; ++it)
 	{
@@ -667,10 +788,6 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 				info("Symbol %s not found in import module", name.c_str()); // just an info because it could be in a different import module
 			}
 		}
-		else if (type == spv::LinkageType::Export)
-		{
-			hasExports = true;
-		}
 	}
 
 	// lib -> consumer
@@ -702,77 +819,88 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		success &= copy(_lib.getModulesProcessed(), [&]() -> Instruction* { return _consumer.addModuleProccessedInstr(); });
 	}
 
-	if (_options & LinkerOptionBits::ImportReferencedFunctions)
+	// symbols can refer to each other: check and register all of them before anything is transferred
+	List<const ImportSymbol*> symbols(pAllocator); // import variables first in case they are used in the imported function
+
+	auto match = [&](const List<ImportSymbol>& _imports)
 	{
-		// gather all functions called from all the iFuncs we want to import
-		HashMap <Function*, Function*> calledFuncs(pAllocator, static_cast<unsigned int>(_lib.getFunctions().size())); // lib Func -> consumer Function
-		for (const ImportSymbol& func : iFuncs)
+		for (const ImportSymbol& symbol : _imports)
 		{
-			Function* target = func.lib->getFunction();
-			FunctionCallGraph fcg(*target, pAllocator);
-
-			for (auto& src : fcg)
+			if (matchSymbol(_consumer, symbol.lib, symbol.consume, symbol.name, _options))
 			{
-				for (auto& [node, call] : src.outputs()) // dont really care about the call
-				{
-					Function* callee = node->data();
-					if (callee != target) // not interested in the exported function
-					{
-						// check if callee is NOT marked for export
-						bool exported = false;
-						ReflectionHelper::getDecorationsFunc(callee->getFunction(), [&exported](const Instruction* pDeco) {
-							if(exported == false && getLinkageTypeFromDecoration(pDeco) == spv::LinkageType::Export)
-							{
-								exported = true;
-							}
-						});
-
-						if (exported == false)
-						{
-							// if we didn't add this function before (call from another site)
-							if (auto& n = calledFuncs.emplaceUnique(callee, nullptr); n.kv.value == nullptr)
-							{
-								// cache the OpFunctions so that we can transfer the instructions in any order and transfering OpFunctionCall works
-								n.kv.value = &_consumer.addFunction();
-								cache.emplaceUnique(callee->getFunction(), assignId(n.kv.value->getFunction(), _options)); // OpFunction
-							}
-						}
-					}
-				}
+				registerSymbol(symbol.lib, symbol.consume, cache);
+				symbols.emplace_back(&symbol);
+			}
+			else
+			{
+				success = false;
 			}
 		}
+	};
 
-		// transfer functions from lib to consumer
-		for (auto& [lFunc, cFunc] : calledFuncs)
+	match(iVars);
+	match(iFuncs);
+
+	List<const ImportSymbol*> complete(pAllocator); // symbols for which everything needed is available
+	List<const Function*> calledFuncs(pAllocator); // functions to import because they are called
+
+	for (const ImportSymbol* symbol : symbols)
+	{
+		InstrSet visited(pAllocator);
+		List<const Function*> called(pAllocator);
+
+		if (canTransferDefinition(symbol->lib, _consumer, cache, visited, called, _options))
 		{
+			complete.emplace_back(symbol);
+
+			for (const Function* func : called)
 			{
-				String sig(pAllocator);
-				TypeHelper::getTypeName(lFunc->getFunctionType(), sig, lFunc->getFunction());
-				info("Auto importing referenced function \'%s\'", sig.c_str());
+				if (calledFuncs.contains(func) == false)
+				{
+					calledFuncs.emplace_back(func);
+				}
 			}
-
-			success &= transferFunction(*lFunc, *cFunc, cache, _options);
 		}
+		else
+		{
+			error("Failed to import symbol %s", symbol->name.c_str());
+			success = false;
+		}
+	}
+
+	// cache the OpFunctions so that we can transfer the instructions in any order and transfering OpFunctionCall works
+	List<Function*> addedFuncs(pAllocator);
+	for (const Function* lFunc : calledFuncs)
+	{
+		Function* cFunc = &_consumer.addFunction();
+		cache.emplaceUnique(lFunc->getFunction(), cFunc->getFunction());
+		addedFuncs.emplace_back(cFunc);
 	}
 
-	bool allImportsResolved = true;
-	// import variables first in case they are used in the imported function
-	for (const ImportSymbol& var : iVars)
+	// transfer functions from lib to consumer
+	auto cit = addedFuncs.begin();
+	for (const Function* lFunc : calledFuncs)
 	{
-		if (success &= importSymbolImpl(_consumer, var.lib, var.consume, var.name, cache, _options); success)
 		{
-			_consumer.getDecorations().erase(var.decoIt); // remove if successful
+			String sig(pAllocator);
+			TypeHelper::getTypeName(lFunc->getFunctionType(), sig, lFunc->getFunction());
+			info("Auto importing referenced function \'%s\'", sig.c_str());
 		}
-		else { allImportsResolved = false; }
+
+		success &= transferFunction(*lFunc, **cit, cache, _options);
+		++cit;
 	}
 
-	for (const ImportSymbol& func : iFuncs)
+	for (const ImportSymbol* symbol : complete)
 	{
-		if (success &= importSymbolImpl(_consumer, func.lib, func.consume, func.name, cache, _options); success)
+		if (importSymbolImpl(_consumer, symbol->lib, symbol->consume, cache, _options))
+		{
+			_consumer.getDecorations().erase(symbol->decoIt); // remove if successful
+		}
+		else
 		{
-			_consumer.getDecorations().erase(func.decoIt); // remove if successful
+			success = false;
 		}
-		else { allImportsResolved = false; }
 	}
 
 	if (_options & LinkerOptionBits::ImportReferencedNames)
@@ -844,7 +972,13 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
-	if (hasExports == false && allImportsResolved && (_options & LinkerOptionBits::RemoveLinkageCapability))
+	bool hasLinkage = false; // unresolved imports or exports
+	for (const Instruction& deco : _consumer.getDecorations())
+	{
+		hasLinkage |= getLinkageTypeFromDecoration(&deco) != spv::LinkageType::Max;
+	}
+
+	if (hasLinkage == false && (_options & LinkerOptionBits::RemoveLinkageCapability))
 	{
 		info("Removing Capability::Linkage from consumer module");
 		_consumer.removeCapability(spv::Capability::Linkage);
-- 
2.43.0


From 8db75108836dbe432360eb3de038a046aa8a0da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 061/118] fix: linking left incomplete instructions behind if a
 line could not be copied

---
 common/source/LinkerHelper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index c8cc6a2..55b74a1 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -799,7 +799,10 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		{
 			Instruction* cSrc = addFunc();
 			if (transferInstruction(&src, cSrc, cache, _options) == false)
+			{
+				_consumer.remove(cSrc); // incomplete
 				return false;
+			}
 		}
 		return true;
 	};
-- 
2.43.0


From a37e629de52a31bc22a32ede6efe1d052b7cba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 062/118] fix: linking lost names and decorations of members of
 transferred types and constants

---
 common/source/LinkerHelper.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 55b74a1..0328bed 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -906,6 +906,34 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
+	// parts of types and constants have been added implicitly, users follow the parts
+	{
+		auto cacheParts = [&cache](const Instruction* _instr)
+		{
+			if (Instruction** ppTarget = cache[_instr]; ppTarget != nullptr)
+			{
+				for (auto lit = _instr->begin(), cit = (*ppTarget)->begin(); lit != _instr->end() && cit != (*ppTarget)->end(); ++lit, ++cit)
+				{
+					if (lit->isInstruction() && cit->isInstruction() && lit->getInstruction()->getOperation() == cit->getInstruction()->getOperation())
+					{
+						cache.emplaceUnique(lit->getInstruction(), cit->getInstruction());
+					}
+				}
+			}
+		};
+
+		for (const Function& func : _lib.getFunctions())
+		{
+			cacheParts(func.getFunction());
+		}
+
+		const auto& tac = _lib.getTypesAndConstants();
+		for (auto it = tac.last(); it != nullptr; --it)
+		{
+			cacheParts(it.operator->());
+		}
+	}
+
 	if (_options & LinkerOptionBits::ImportReferencedNames)
 	{
 		for (const Instruction& name : _lib.getNames())
-- 
2.43.0


From ed89e5bd4dd842d34ffafb7c45b6b00e525e82d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 063/118] fix: linking lost the import decorations of
 transferred functions and variables

---
 common/source/LinkerHelper.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 0328bed..c5f4c16 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -968,10 +968,20 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	{
 		for (const Instruction& lDeco : _lib.getDecorations())
 		{
-			if (ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
+			auto target = lDeco.getFirstActualOperand();
+			const Instruction* lTarget = target != nullptr ? target->getInstruction() : nullptr;
+			if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr)
 			{
-				const Instruction* lTarget = lDeco.getFirstActualOperand()->getInstruction();
-				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr)
+				bool required = true;
+
+				// imports of the library are imports of the consumer, exports have been consumed
+				if (ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) == spv::Decoration::LinkageAttributes)
+				{
+					auto isSymbol = [lTarget](const ImportSymbol* _symbol) { return _symbol->lib == lTarget; };
+					required = getLinkageTypeFromDecoration(&lDeco) == spv::LinkageType::Import && symbols.find_if(isSymbol) == symbols.end();
+				}
+
+				if (required)
 				{
 					Instruction* cDeco = _consumer.addDecorationInstr();
 					success &= transferInstruction(&lDeco, cDeco, cache, _options);
-- 
2.43.0


From 524681f0930832f1d58e87d5e5fc045891e582c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 064/118] fix: getNextId returned the invalid id 0 for modules
 without ids

---
 lib/include/spvgentwo/Module.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Module.h b/lib/include/spvgentwo/Module.h
index 71b6684..d33d7f6 100644
--- a/lib/include/spvgentwo/Module.h
+++ b/lib/include/spvgentwo/Module.h
@@ -51,7 +51,7 @@ namespace spvgentwo
 		void setSpvSchema(unsigned int _schema) { m_spvSchema = _schema; }
 
 		// get next free Id for use as ResultId operand
-		spv::Id getNextId() { return spv::Id{ m_spvBound++ }; }
+		spv::Id getNextId() { if (m_spvBound == 0u) { m_spvBound = 1u; } return spv::Id{ m_spvBound++ }; } // 0 is not a valid id
 
 		IAllocator* getAllocator() const { return m_pAllocator; }
 
-- 
2.43.0


From ef8f078ac28bac20e06090bdc134e2f7317e19a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 065/118] fix: getDecorations dereferenced the missing target
 of decoration groups

---
 common/include/common/ReflectionHelperTemplate.inl | 2 +-
 common/source/ReflectionHelper.cpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/ReflectionHelperTemplate.inl b/common/include/common/ReflectionHelperTemplate.inl
index db31638..ba5b508 100644
--- a/common/include/common/ReflectionHelperTemplate.inl
+++ b/common/include/common/ReflectionHelperTemplate.inl
@@ -49,7 +49,7 @@ void spvgentwo::ReflectionHelper::getDecorationsFunc(const Instruction* _pTarget
 
 	for (Instruction& decoration : _pTarget->getModule()->getDecorations())
 	{
-		if (*decoration.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = decoration.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target
 		{
 			_func(&decoration);
 		}
diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 0be9a01..e4a8bcc 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -67,7 +67,7 @@ void spvgentwo::ReflectionHelper::getDecorations(const Instruction* _pTarget, Li
 
 	for(Instruction& decoration : _pTarget->getModule()->getDecorations())
 	{
-		if (*decoration.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = decoration.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target
 		{
 			_outDecorations.emplace_back(&decoration);
 		}
-- 
2.43.0


From caef8b10415a76c610054c9ca00a882848b5771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 066/118] fix: getVariablesWithDecoration missed decorations
 without literals

---
 common/include/common/ReflectionHelperTemplate.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/ReflectionHelperTemplate.inl b/common/include/common/ReflectionHelperTemplate.inl
index ba5b508..68fe3c9 100644
--- a/common/include/common/ReflectionHelperTemplate.inl
+++ b/common/include/common/ReflectionHelperTemplate.inl
@@ -24,11 +24,11 @@ void spvgentwo::ReflectionHelper::getVariablesWithDecorationFunc(const Module& _
 			++it;
 		}
 
-		if (match && it.next() != nullptr)
+		if (match)
 		{
 			if (_pValue != nullptr)
 			{
-				if (*_pValue == it.next()->getLiteral())
+				if (it.next() != nullptr && *_pValue == it.next()->getLiteral())
 				{
 					_func(target->getInstruction());
 				}
-- 
2.43.0


From 0cfc42661e9e995a575c840af0d420177538931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 067/118] fix: getSpvDecorationAndLiteralFromDecoration
 accepted any instruction

---
 common/source/ReflectionHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index e4a8bcc..e2e30f2 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -97,7 +97,7 @@ spvgentwo::spv::Decoration spvgentwo::ReflectionHelper::getSpvDecorationKindFrom
 
 bool spvgentwo::ReflectionHelper::getSpvDecorationAndLiteralFromDecoration(const Instruction* _pInDecoration, spv::Decoration& _outDecoration, unsigned int& _outValue)
 {
-	if (_pInDecoration == nullptr || (*_pInDecoration != spv::Op::OpDecorate && *_pInDecoration == spv::Op::OpMemberDecorate))
+	if (_pInDecoration == nullptr || (*_pInDecoration != spv::Op::OpDecorate && *_pInDecoration != spv::Op::OpMemberDecorate))
 	{
 		return false;
 	}
-- 
2.43.0


From bcd93ab53be6b15e85942da2e2f7bb6b6f9e2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 068/118] fix: getLocalSize crashed on null constants and
 returned the opcode of OpSpecConstantOp

---
 common/source/ReflectionHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index e2e30f2..8cd15e4 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -21,7 +21,8 @@ bool spvgentwo::ReflectionHelper::getLocalSize(const Module& _module, unsigned i
 			{
 				auto getValue = [](const Instruction* instr) -> unsigned int
 				{
-					if (instr == nullptr || instr->isSpecOrConstant() == false)
+					// only these have their value as literal operand
+					if (instr == nullptr || (*instr != spv::Op::OpConstant && *instr != spv::Op::OpSpecConstant))
 						return 0u;
 
 					if(auto it = instr->getFirstActualOperand(); it->isLiteral() )
-- 
2.43.0


From 1eddc2a4d1a23af1f6cd1a06807eb39fc437d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 069/118] fix: getDecorationLiteralFromTarget took ids and
 member indices for decorations

---
 common/source/ReflectionHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 8cd15e4..68d9bd1 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -149,12 +149,12 @@ unsigned int spvgentwo::ReflectionHelper::getDecorationLiteralFromTarget(spv::De
 
 		if (target != nullptr && *target == _pTarget)
 		{
-			if (decoration == spv::Op::OpMemberDecorate)
+			if (decoration == spv::Op::OpMemberDecorate || decoration == spv::Op::OpMemberDecorateString)
 			{
 				target = target.next(); // skip member index
 			}
 
-			if (auto deco = target.next(); deco != nullptr && deco.next() != nullptr && deco->getLiteral() == static_cast<unsigned int>(_decoration))
+			if (auto deco = target.next(); deco != nullptr && deco->isLiteral() && deco.next() != nullptr && deco.next()->isLiteral() && deco->getLiteral() == static_cast<unsigned int>(_decoration))
 			{
 				if (_pOutDecoration != nullptr)
 				{
-- 
2.43.0


From 7eabab23f714b481242f7ce7e3ad4179e9e76fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 070/118] fix: Graph::back returned the first node

---
 common/include/common/Graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/Graph.h b/common/include/common/Graph.h
index da320b0..af7653d 100644
--- a/common/include/common/Graph.h
+++ b/common/include/common/Graph.h
@@ -41,8 +41,8 @@ namespace spvgentwo
 		NodeType& front() { return m_nodes.front(); }
 		const NodeType& front() const { return m_nodes.front(); }
 
-		NodeType& back() { return m_nodes.front(); }
-		const NodeType& back() const { return m_nodes.front(); }
+		NodeType& back() { return m_nodes.back(); }
+		const NodeType& back() const { return m_nodes.back(); }
 
 	protected:
 
-- 
2.43.0


From 083322939fae6f63220cbfe5ebe05108dff93b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 071/118] fix: move assignment of Graph and Node did not return
 the object

---
 common/include/common/Graph.h | 1 +
 common/include/common/Node.h  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Graph.h b/common/include/common/Graph.h
index af7653d..af0f0fd 100644
--- a/common/include/common/Graph.h
+++ b/common/include/common/Graph.h
@@ -65,6 +65,7 @@ namespace spvgentwo
 	inline Graph<N, E>& Graph<N, E>::operator=(Graph<N, E>&& _other) noexcept
 	{
 		m_nodes = stdrep::move(_other.m_nodes);
+		return *this;
 	}
 
 	template<class N, class E>
diff --git a/common/include/common/Node.h b/common/include/common/Node.h
index b9a64b3..4dd40ef 100644
--- a/common/include/common/Node.h
+++ b/common/include/common/Node.h
@@ -79,7 +79,7 @@ namespace spvgentwo
 	template<class N, class E>
 	inline Node<N, E>& Node<N, E>::operator=(Node<N, E>&& _other) noexcept
 	{
-		if (this == &_other) return this;
+		if (this == &_other) return *this;
 
 		m_data = stdrep::move(_other.m_data);
 		m_inputs = stdrep::move(_other.m_inputs);
-- 
2.43.0


From b078bfb688b66cf810edc1e739bc38f5b9f33e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 072/118] fix: Node::connect moved the edge data into the
 output edge only

---
 common/include/common/Node.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/Node.h b/common/include/common/Node.h
index 4dd40ef..1080105 100644
--- a/common/include/common/Node.h
+++ b/common/include/common/Node.h
@@ -123,7 +123,7 @@ namespace spvgentwo
 	template<class ...EdgeArgs>
 	inline void Node<N, E>::connect(Node* _pTarget, EdgeArgs&& ..._args)
 	{
-		m_outputs.emplace_back(_pTarget, stdrep::forward<EdgeArgs>(_args)...);
+		m_outputs.emplace_back(_pTarget, static_cast<const EdgeArgs&>(_args)...); // both edges need the data
 		_pTarget->m_inputs.emplace_back(this, stdrep::forward<EdgeArgs>(_args)...);
 	}
 
-- 
2.43.0


From 5f8c38b4fbdcec05c8a15ac6e2a5154b45855dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 073/118] fix: ExprGraph::evaluateExplicit and edge list
 arguments did not compile

---
 common/include/common/ExprGraph.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/include/common/ExprGraph.h b/common/include/common/ExprGraph.h
index 6d2ef79..8f3e41c 100644
--- a/common/include/common/ExprGraph.h
+++ b/common/include/common/ExprGraph.h
@@ -56,7 +56,7 @@ namespace spvgentwo
 			}
 			else
 			{
-				expr(_pExitNode->inputs(), _pExitNode->output());			
+				expr(_pExitNode->inputs(), _pExitNode->outputs());			
 			}
 		}
 	}
@@ -76,13 +76,13 @@ namespace spvgentwo
 
 			if constexpr (args == ExprArgs::FunctionPtrLists)
 			{
-				auto inputs = transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
-				auto outputs = transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto inputs = algo::transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto outputs = algo::transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
 				expr(inputs, outputs);
 			}
 			else
 			{
-				expr(node->inputs(), node->output());
+				expr(node->inputs(), node->outputs());
 			}
 		}
 
-- 
2.43.0


From ad66579c68af48e7c1460be67570864280ee4c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 074/118] fix: opVectorTimesMatrix used the type of the vector
 operand as result type

The result has as many components as the matrix has columns.
---
 lib/source/Instruction.cpp               | 2 +-
 lib/source/TypeInferenceAndValiation.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 1f970eb..eaac98f 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1397,7 +1397,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVectorTimesMatrix(Instruction*
 
 	if (pVecType->isVectorOfFloat() && pMatType->isMatrix() && pMatType->hasSameBase(*pVecType) && pMatType->front().getVectorComponentCount() == pVecType->getVectorComponentCount())
 	{
-		return makeOp(spv::Op::OpVectorTimesMatrix, _pVector->getResultTypeInstr(), InvalidId, _pVector, _pMatrix);
+		return makeOp(spv::Op::OpVectorTimesMatrix, InvalidInstr, InvalidId, _pVector, _pMatrix);
 	}
 
 	getModule()->logError("Operand of OpVectorTimesMatrix is not a vector or matrix of float type");
diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index d40293f..ed35618 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -219,14 +219,14 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		break;
 	case spv::Op::OpVectorTimesMatrix:
 	{
-		if (type1 == nullptr) return module->getErrorInstr();
+		if (type2 == nullptr) return module->getErrorInstr();
 
 		// Matrix must be a matrix with the same Component Type as the Component Type in Result Type.
 		// Its number of columns must equal the number of components in Result Type.
 		// => return matrix row type:
-		if (type1->isMatrix())
+		if (type2->isMatrix())
 		{
-			return module->addType(type1->front().wrapVector(type1->getMatrixColumnCount()));
+			return module->addType(type2->getBaseType().wrapVector(type2->getMatrixColumnCount()));
 		}
 		break;
 	}
-- 
2.43.0


From 28a0b16a1b1626650617d71802a18ed8c6a37858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 075/118] fix: opBitCount was refused for every operand

getTypeFromOp did not know the operation.
---
 lib/include/spvgentwo/SpvDefines.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 10c61a1..48ada85 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -230,6 +230,7 @@ namespace spvgentwo
 		case spv::Op::OpSatConvertSToU:
 		case spv::Op::OpBitFieldInsert:
 		case spv::Op::OpBitReverse:
+		case spv::Op::OpBitCount:
 
 			_sign = Sign::Any;
 			return spv::Op::OpTypeInt;
-- 
2.43.0


From e9e727cfa52d859aa9068e1556d14bbcf379cfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 076/118] fix: result types of depth comparing image samples
 and of OpImageRead

Dref samples yield a scalar, reading a format with one channel yields a
scalar and reading an image of unknown format a vector of four components;
vectors of one or zero components were declared.
---
 lib/source/TypeInferenceAndValiation.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index ed35618..61938d4 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -385,8 +385,19 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		// Result Type must be a scalar or vector of floating-point type or integer type. It must be a scalar or vector with
 		// component type the same as Sampled Type of the OpTypeImage(unless that Sampled Type is OpTypeVoid)
 
-		unsigned int components = instr != spv::Op::OpImageRead ? 4u : getImageChannelCount(image->getImageFormat());
-		
+		unsigned int components = 4u;
+
+		if (instr == spv::Op::OpImageRead)
+		{
+			const unsigned int channels = getImageChannelCount(image->getImageFormat());
+			if (channels != 0u) components = channels;
+		}
+		else if (instr == spv::Op::OpImageSampleDrefImplicitLod || instr == spv::Op::OpImageSampleDrefExplicitLod ||
+			instr == spv::Op::OpImageSampleProjDrefImplicitLod || instr == spv::Op::OpImageSampleProjDrefExplicitLod)
+		{
+			components = 1u; // depth comparison yields a scalar
+		}
+
 		if (sampledType.isVoid())
 		{
 			// assume float4
@@ -394,7 +405,7 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		}
 		else
 		{
-			return module->addType(sampledType.wrapVector(components));
+			return module->addType(components == 1u ? sampledType : sampledType.wrapVector(components));
 		}
 	}		
 		break;
-- 
2.43.0


From a253c5f6b52ececabe8531bd1b9afeb59c39c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 077/118] fix: size queries of 1D images yielded a vector of
 one component

---
 lib/source/TypeInferenceAndValiation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 61938d4..eb5c862 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -438,7 +438,7 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 
 		auto dim = getImageDimension(type1->getImageDimension()) + (type1->getImageArray() ? 1u : 0u);
 
-		return module->addType(module->newType().Vector(dim).UIntM());
+		return module->addType(dim == 1u ? module->newType().UInt() : module->newType().Vector(dim).UIntM());
 	}
 	case spv::Op::OpImageQueryLod:
 		//Result Type must be a two - component floating - point type vector.
-- 
2.43.0


From 12fcb7552515200b3773f666fa35c607a93f358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 078/118] fix: coordinates with too few components were
 accepted for images

Scalars passed as vectors and cube images need three components.
---
 lib/source/Instruction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index eaac98f..320d9b3 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1797,7 +1797,8 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 
 	Module* module = getModule();
 
-	unsigned int dim = getImageDimension(_pImageType->getImageDimension());
+	// cube coordinates are direction vectors
+	unsigned int dim = _pImageType->getImageDimension() == spv::Dim::Cube ? 3u : getImageDimension(_pImageType->getImageDimension());
 
 	if (dim == 0u)
 	{
@@ -1815,7 +1816,7 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 		dim += 1u;
 	}
 
-	if (dim > 1u && _pCoordType->getVectorComponentCount() < dim)
+	if (_pCoordType->getScalarOrVectorLength() < dim)
 	{
 		module->logError("Dimension of coordinates does not match image type");
 		return false;
-- 
2.43.0


From f9f310ec0af06aebc9a87636bbb3f57768b035aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 079/118] fix: component kinds of image coordinates

OpImageFetch takes integer coordinates only; gathers and projective samples
take floating point coordinates only. Operands that are no images are reported.
---
 lib/include/spvgentwo/InstructionTemplate.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index b3ec547..15f9d87 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -634,6 +634,7 @@ namespace spvgentwo
 
 		if (type->isImage() == false && type->isSampledImage() == false)
 		{
+			module.logError("_pTargetImage operand is not of type OpTypeImage or OpTypeSampledImage");
 			return error();
 		}
 
@@ -695,14 +696,13 @@ namespace spvgentwo
 				return error();
 			}
 			isSampled = false;
-			coordCheckArgs |= CheckImgCoord::CanBeInt;
+			coordCheckArgs |= CheckImgCoord::MustBeInt;
 			break;
 		case spv::Op::OpImageDrefGather:
 			isDref = true; [[fallthrough]];
 		case spv::Op::OpImageGather:
 			isSampled = true;
 			isComponent = !isDref;
-			coordCheckArgs |= CheckImgCoord::CanBeInt;
 			if (spv::Dim d = imageType->getImageDimension(); d != spv::Dim::Dim2D && d != spv::Dim::Cube && d != spv::Dim::Rect)
 			{
 				module.logError("OpImageGather requres Dim of sampled image to be 2D, Cube or Rect");
@@ -711,7 +711,7 @@ namespace spvgentwo
 			break;
 		case spv::Op::OpImageSampleImplicitLod:			isSampled = true; break;
 		case spv::Op::OpImageSampleExplicitLod:			isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; break;
-		case spv::Op::OpImageSampleProjImplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; coordCheckArgs |= CheckImgCoord::IsProjective; break;
+		case spv::Op::OpImageSampleProjImplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; break;
 		case spv::Op::OpImageSampleProjExplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; break;
 		case spv::Op::OpImageSampleDrefImplicitLod:		isSampled = true; isDref = true; break;
 		case spv::Op::OpImageSampleDrefExplicitLod:		isSampled = true; isDref = true; break;
-- 
2.43.0


From 6094f72f992c17f3f6c47d51ffb0c16be243a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 080/118] fix: opImageWrite compared the texel length with the
 image dimension

and ignored width and sign of the components.
---
 lib/include/spvgentwo/InstructionTemplate.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 15f9d87..0bff447 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -793,7 +793,7 @@ namespace spvgentwo
 
 		const Type& sampledType = imageType->front();
 
-		if (texelType->isScalarOrVectorOf(sampledType.getType(), getImageDimension(imageType->getImageDimension()) ) == false)
+		if (sampledType.isVoid() ? texelType->isNumericalScalarOrVector() == false : (texelType->getScalarOrVectorLength() == 0u || texelType->getBaseType() != sampledType))
 		{
 			module->logError("OpImageWrite texel type must be numerical scalar or vector of type %s", sampledType.getString());
 			return error();
-- 
2.43.0


From b1166f7a4876d546d17865b3a054f3e1d812cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 081/118] fix: checks of image operands

Correct gradients were reported as errors and wrong second ones were not,
offsets have a single operand (the absent second one was dereferenced, as
were absent operands of the other kinds).
---
 lib/source/TypeInferenceAndValiation.cpp | 31 ++++++++++++++----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index eb5c862..5d45749 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -44,10 +44,15 @@ namespace
 		const Type* type1 = op1 != nullptr ? op1->getType() : nullptr;
 		const Type* type2 = op2 != nullptr ? op2->getType() : nullptr;;
 
-		auto checkCoordAndOperandDim = [&]() ->bool
+		if (imageType->isSampledImage())
+		{
+			imageType = &imageType->front();
+		}
+
+		auto checkCoordAndOperandDim = [&](const Type* _pOperandType) ->bool
 		{
 			unsigned int coordLength = coordType->getScalarOrVectorLength() - (imageType->getImageArray() ? 1u : 0u);
-			if (coordLength != type1->getScalarOrVectorLength() || coordLength != type2->getScalarOrVectorLength())
+			if (_pOperandType == nullptr || coordLength != _pOperandType->getScalarOrVectorLength())
 			{
 				module->logError("Invalid derivative dimensions");
 				return false;
@@ -55,7 +60,7 @@ namespace
 			return true;
 		};
 
-		for (unsigned int i = 0u; opMask != spv::ImageOperandsMask::MaskNone && i < (unsigned int)spv::ImageOperandsShift::ZeroExtend; ++i)
+		for (unsigned int i = 0u; opMask != spv::ImageOperandsMask::MaskNone && i <= (unsigned int)spv::ImageOperandsShift::ZeroExtend; ++i)
 		{
 			// TODO: get operands within the loop and dont return in the switch
 			spv::ImageOperandsMask mask = static_cast<spv::ImageOperandsMask>(1u << i);
@@ -64,35 +69,35 @@ namespace
 				switch (mask)
 				{
 				case spv::ImageOperandsMask::Bias:
-					return module->logError(type1->isFloat(), "Bias operand must be of type float");
+					return module->logError(type1 != nullptr && type1->isFloat(), "Bias operand must be of type float");
 				case spv::ImageOperandsMask::Lod:
-					return module->logError(op == spv::Op::OpImageFetch ? type1->isInt() : type1->isFloat(), "Lod operand must be of type float (or int for OpImageFetch)");
+					return module->logError(type1 != nullptr && (op == spv::Op::OpImageFetch ? type1->isInt() : type1->isFloat()), "Lod operand must be of type float (or int for OpImageFetch)");
 				case spv::ImageOperandsMask::Grad:
-					if (checkCoordAndOperandDim() == false)
+					if (checkCoordAndOperandDim(type1) == false || checkCoordAndOperandDim(type2) == false)
 					{
 						return false;
 					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeFloat) == false || type2->isBaseTypeOf(spv::Op::OpTypeFloat))
+					if (type1->isBaseTypeOf(spv::Op::OpTypeFloat) == false || type2->isBaseTypeOf(spv::Op::OpTypeFloat) == false)
 					{
 						module->logError("Explicit lod grad operands must be scalar or vector of float");
 						return false;
 					}
 					return true;
 				case spv::ImageOperandsMask::ConstOffset:
-					if (op1->isSpecOrConstant() == false)
+					if (op1 == nullptr || op1->isSpecOrConstant() == false)
 					{
 						module->logError("Image operand is not a constant op");
 						return false;
 					}
 					[[fallthrough]];
 				case spv::ImageOperandsMask::Offset:
-					if (checkCoordAndOperandDim() == false)
+					if (checkCoordAndOperandDim(type1) == false)
 					{
 						return false;
 					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeInt) == false || type2->isBaseTypeOf(spv::Op::OpTypeInt))
+					if (type1->isBaseTypeOf(spv::Op::OpTypeInt) == false)
 					{
-						module->logError("Explicit lod grad operands must be scalar or vector of integer");
+						module->logError("Offset operands must be scalar or vector of integer");
 						return false;
 					}
 					return true;
@@ -107,9 +112,9 @@ namespace
 						module->logError("Sample operand can only be used with OpImageFetch,OpImageRead,OpImageWrite,OpImageSparseFetch or OpImageSparseRead");
 						return false;
 					}
-					return module->logError(type1->isInt() && imageType->getImageMultiSampled(), "Sample operand must be of type int & the image must be MS");
+					return module->logError(type1 != nullptr && type1->isInt() && imageType->getImageMultiSampled(), "Sample operand must be of type int & the image must be MS");
 				case spv::ImageOperandsMask::MinLod:
-					return module->logError(type1->isFloat(), "MinLod operand must be of type float");
+					return module->logError(type1 != nullptr && type1->isFloat(), "MinLod operand must be of type float");
 				case spv::ImageOperandsMask::MakeTexelAvailableKHR:
 				case spv::ImageOperandsMask::MakeTexelVisibleKHR:
 				case spv::ImageOperandsMask::NonPrivateTexelKHR:
-- 
2.43.0


From 1d4ea02e40f4a9990495e5fd59a10a6c69df5975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 082/118] fix: opArrayLength of a pointer to a struct without
 members

---
 lib/source/Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 320d9b3..30e60bf 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1125,7 +1125,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opArrayLength(Instruction* _pStr
 	if (type == nullptr) return error();
 
 
-	if (type->isPointer() == false || type->front().isStruct() == false || type->front().back().isRuntimeArray() == false)
+	if (type->isPointer() == false || type->front().isStruct() == false || type->front().getSubTypes().empty() || type->front().back().isRuntimeArray() == false)
 	{
 		getModule()->logError("Operand _pStructure of OpArrayLength must be a logical pointer to an OpTypeStruct whose last	member is a run-time array");
 		return error();
-- 
2.43.0


From f79cbb6d79013cba596b87aae31cb14e776659fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 083/118] fix: opBitcast accepted operands that are neither
 numbers nor pointers

Zero bits are equal to zero bits.
---
 lib/source/Instruction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 30e60bf..7c2a0bd 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1715,7 +1715,8 @@ spvgentwo::Instruction* spvgentwo::Instruction::opBitcast(Instruction* _pResultT
 	}
 
 	if ((operandType->isPointer() && resultType->isPointer()) ||
-		(operandType->getScalarOrVectorLength() * operandType->getBaseType().getIntWidth() ==
+		(operandType->isNumericalScalarOrVector() && resultType->isNumericalScalarOrVector() &&
+			operandType->getScalarOrVectorLength() * operandType->getBaseType().getIntWidth() ==
 			resultType->getScalarOrVectorLength() * resultType->getBaseType().getIntWidth()))
 	{
 		return makeOp(spv::Op::OpBitcast, _pResultType, InvalidId, _pOperand);
-- 
2.43.0


From 2305c4fbcb8605f50640973933570e292d04a88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 084/118] fix: opPhiDynamic dropped the first variable

and left half an instruction behind when it refused the others.
---
 lib/source/Instruction.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 7c2a0bd..1ab71bc 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1027,17 +1027,19 @@ spvgentwo::Instruction* spvgentwo::Instruction::opPhiDynamic(const List<Instruct
 
 	if (type == nullptr) return error();
 
-	makeOp(spv::Op::OpPhi, type, InvalidId);
-
-	for (auto it = _variables.begin().next(); it != _variables.end(); ++it)
+	for (Instruction* var : _variables)
 	{
-		Instruction* var = *it;
 		if (var == nullptr || (var->getResultTypeInstr() != type) || (var->getBasicBlock() == nullptr))
 		{
 			getModule()->logError("Invalid variable (type or null) passed to opPhiDynamic");
 			return error();
 		}
+	}
 
+	makeOp(spv::Op::OpPhi, type, InvalidId);
+
+	for (Instruction* var : _variables)
+	{
 		addOperand(var);
 		addOperand(var->getBasicBlock());
 	}
-- 
2.43.0


From cc14719db18ac24677432f9858543a909bb9dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 085/118] fix: Not refused an operand without reporting an
 error

Every other generic operation logs an error when its operands do not match.
---
 lib/source/Instruction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 1ab71bc..ead9163 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -691,6 +691,8 @@ spvgentwo::Instruction* spvgentwo::Instruction::Not(Instruction* _pIntOrBool)
 		return opLogicalNot(_pIntOrBool);
 	}
 
+	getModule()->logError("Failed to match Not's operand type for this instruction");
+
 	return error();
 }
 
-- 
2.43.0


From 5ffd69c498fe1182a9b2632867bf265fec2baaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 086/118] fix: index paths that leave a composite type were
 followed to another element

Type::getSubType went on with member 0 for an index outside of a struct, stopped
early at a scalar, walked through pointers and images, and its dynamic variant
skipped levels, so that opAccessChain, opCompositeExtract and opCompositeInsert
yielded instructions of a wrong type. opAccessChain accepted a base that is no
pointer.
---
 lib/include/spvgentwo/InstructionTemplate.inl | 18 +++++++++--
 lib/include/spvgentwo/Type.h                  | 11 ++++---
 lib/source/Instruction.cpp                    | 24 +++++++-------
 lib/source/Type.cpp                           | 31 +++++++++++++------
 4 files changed, 57 insertions(+), 27 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 0bff447..26dee84 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -262,16 +262,28 @@ namespace spvgentwo
 		const Type* pBaseType = _pBase->getType();
 		if (pBaseType == nullptr) return error();
 
-		auto it = pBaseType->getSubType(0u, _indices...); // base is a pointer type, so 0 is used to get the inner type
+		const Type* pElementType = nullptr;
 
-		if (it != nullptr)
+		if (pBaseType->isPointer() && pBaseType->getSubTypes().empty() == false)
+		{
+			if constexpr (sizeof...(_indices) == 0u)
+			{
+				pElementType = &pBaseType->front();
+			}
+			else if (auto it = pBaseType->front().getSubType(_indices...); it != nullptr)
+			{
+				pElementType = it.operator->();
+			}
+		}
+
+		if (pElementType != nullptr)
 		{
 			Module* pModule = _pBase->getModule();
 
 			// Result Type must be an OpTypePointer.
 			// Its Type operand must be the type reached by walking the Base’s type hierarchy down to the last provided index in Indexes, and its Storage Class operand must be the same as the Storage Class of Base.
 	
-			Instruction* pResultType = pModule->addType(it->wrapPointer(pBaseType->getStorageClass()));
+			Instruction* pResultType = pModule->addType(pElementType->wrapPointer(pBaseType->getStorageClass()));
 
 			return makeOp(spv::Op::OpAccessChain, pResultType, InvalidId, _pBase, pModule->template constant<unsigned int>(_indices)...);
 		}
diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index d592231..04c3f78 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -389,11 +389,14 @@ namespace spvgentwo
 		// return 1 if type is a scalar, return component count if type is vector, 0 otherwise
 		constexpr unsigned int getScalarOrVectorLength() const { return isScalar() ? 1u : isVector() ? getVectorComponentCount() : 0u; }
 
-		// depth first traversal of type hierarchy using integer indices (static variant), returns the iterator of the last valid type accessed by index
+		// type of the element _i of this composite type, nullptr if this type is not composite or has no such element
+		Iterator getElement(unsigned int _i) const;
+
+		// depth first traversal of composite type hierarchy using integer indices (static variant), returns the type reached by the indices, nullptr if there is no such element
 		template<class... Indices>
 		Iterator getSubType(unsigned int _i, Indices... _indices) const;
 
-		// depth first traversal of type hierarchy using integer indices (dynamic variant), returns the iterator of the last valid type accessed by index
+		// depth first traversal of composite type hierarchy using integer indices (dynamic variant), returns the type reached by the indices, nullptr if there is no such element
 		Iterator getSubType(const List<unsigned int>& _indices) const;
 
 		// creates a new empty type from this types allocator
@@ -681,11 +684,11 @@ namespace spvgentwo
 	template<class ...Indices>
 	inline List<Type>::Iterator Type::getSubType(unsigned int _i, Indices ..._indices) const
 	{
-		auto it = m_subTypes.begin() + (_i < m_subTypes.size() ? _i : 0u);
+		auto it = getElement(_i);
 
 		if constexpr (sizeof...(_indices) > 0)
 		{
-			if (it != nullptr && it->m_subTypes.empty() == false)
+			if (it != nullptr)
 			{
 				return it->getSubType(_indices...);
 			}
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index ead9163..c157b9a 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1092,21 +1092,28 @@ spvgentwo::Instruction* spvgentwo::Instruction::opAccessChain(Instruction* _pBas
 	const Type* pBaseType = _pBase->getType();
 	if (pBaseType == nullptr) return error();
 
-	auto it = pBaseType->getSubType(0u); // base is a pointer type, so 0 is used to get the inner type
+	const Type* pElementType = nullptr;
 
-	if (it != nullptr)
+	if (pBaseType->isPointer() && pBaseType->getSubTypes().empty() == false)
 	{
-		it = it->getSubType(_indices);
+		if (_indices.empty())
+		{
+			pElementType = &pBaseType->front();
+		}
+		else if (auto it = pBaseType->front().getSubType(_indices); it != nullptr)
+		{
+			pElementType = it.operator->();
+		}
 	}
 
-	if (it != nullptr)
+	if (pElementType != nullptr)
 	{
 		Module* pModule = _pBase->getModule();
 
 		// Result Type must be an OpTypePointer.
 		// Its Type operand must be the type reached by walking the Base�s type hierarchy down to the last provided index in Indexes, and its Storage Class operand must be the same as the Storage Class of Base.
 
-		Instruction* pResultType = pModule->addType(it->wrapPointer(pBaseType->getStorageClass()));
+		Instruction* pResultType = pModule->addType(pElementType->wrapPointer(pBaseType->getStorageClass()));
 
 		makeOp(spv::Op::OpAccessChain, pResultType, InvalidId, _pBase);
 
@@ -1237,12 +1244,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeExtractDynamic(Instru
 		return error();
 	}
 
-	auto it = pBaseType->getSubType(0u);
-
-	if (it != nullptr)
-	{
-		it = it->getSubType(_indices);
-	}
+	auto it = pBaseType->getSubType(_indices);
 
 	if (it != nullptr)
 	{
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index 9072a08..03ac404 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -688,22 +688,35 @@ spvgentwo::Type& spvgentwo::Type::Member(const Type* _pSubType)
 	}
 }
 
+spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getElement(unsigned int _i) const
+{
+	if (isStruct())
+	{
+		return _i < m_subTypes.size() ? m_subTypes.begin() + _i : Iterator(nullptr);
+	}
+
+	// all elements are of the same type
+	const bool inside = isRuntimeArray() ||
+		(isArray() && (_i < m_ArrayLength || m_ArrayLength == 0u)) || // 0 if the length is not known
+		(isVector() && _i < m_VecComponentCount) ||
+		(isMatrix() && _i < m_MatColumnCount);
+
+	return inside ? m_subTypes.begin() : Iterator(nullptr);
+}
+
 spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getSubType(const List<unsigned int>& _indices) const
 {
-	auto it = m_subTypes.begin();
+	Iterator it(nullptr);
+	const Type* type = this;
 
 	for (auto i : _indices)
 	{
-		auto prev = it;
-		it = it + i;
-		if (it != nullptr)
-		{
-			it = it->getSubTypes().begin();
-		}
-		else
+		it = type->getElement(i);
+		if (it == nullptr)
 		{
-			return prev;
+			break;
 		}
+		type = it.operator->();
 	}
 
 	return it;
-- 
2.43.0


From 9377b7bc8fc9306f3fcfc4f645811975e5dba688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 087/118] fix: access chains with explicit result type accepted
 a base that is no pointer

---
 lib/include/spvgentwo/InstructionTemplate.inl | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 26dee84..bce5076 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -245,6 +245,12 @@ namespace spvgentwo
 			return error();
 		}
 
+		if (const Type* pBaseType = _pBase->getType(); pBaseType != nullptr && pBaseType->isPointer() == false)
+		{
+			getModule()->logError("_pBase is not a pointer");
+			return error();
+		}
+
 		return makeOp(spv::Op::OpAccessChain, _pResultType, InvalidId, _pBase, _pIndices...);
 	}
 
@@ -303,9 +309,15 @@ namespace spvgentwo
 
 		if (_pResultType == nullptr || _pBase == nullptr || _pConstIndex == nullptr) return error();
 
-		if (_pResultType->isType() == false)
+		if (_pResultType->isType() == false || _pResultType->getType()->isPointer() == false)
+		{
+			getModule()->logError("_pResultType is not a (pointer) type instruction");
+			return error();
+		}
+
+		if (const Type* pBaseType = _pBase->getType(); pBaseType != nullptr && pBaseType->isPointer() == false)
 		{
-			getModule()->logError("_pResultType is not a type instruction");
+			getModule()->logError("_pBase is not a pointer");
 			return error();
 		}
 
-- 
2.43.0


From f6713c5cfce66246cc11ea0f3b63fff2cc08c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 088/118] fix: opVectorShuffle accepted component indices
 outside of the vectors

---
 lib/include/spvgentwo/InstructionTemplate.inl | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index bce5076..cca8cb1 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -537,6 +537,15 @@ namespace spvgentwo
 
 		if (lType->isVector() && rType->isVector() && lType->getBaseType() == rType->getBaseType())
 		{
+			// components are selected from both vectors, 0xFFFFFFFF selects none
+			const unsigned int count = lType->getVectorComponentCount() + rType->getVectorComponentCount();
+
+			if (((_components < count || _components == ~0u) && ...) == false)
+			{
+				getModule()->logError("Component index of opVectorShuffle is out of bounds");
+				return error();
+			}
+
 			Instruction* resultType = getModule()->addType(lType->getBaseType().wrapVector(componentCount));
 			return makeOp(spv::Op::OpVectorShuffle, resultType, InvalidId, _pVector1, _pVector2, literal_t{ _components }...);
 		}
-- 
2.43.0


From ecf694af15baed8ce9f72760d188430cfb3f1b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 089/118] fix: opCompositeConstruct accepted a value as result
 type

---
 lib/include/spvgentwo/InstructionTemplate.inl | 2 +-
 lib/source/Instruction.cpp                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index cca8cb1..0cea400 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -568,7 +568,7 @@ namespace spvgentwo
 		const Type* type =  _pResultType->getType();
 		if (type == nullptr) return error();
 
-		if (type->isComposite() == false)
+		if (_pResultType->isType() == false || type->isComposite() == false)
 		{
 			getModule()->logError("Result type of opCompositeConstruct is not a composite type");
 			return error();
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index c157b9a..8ee0555 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1215,7 +1215,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeConstructDynamic(Inst
 	const Type* type = _pResultType->getType();
 	if (type == nullptr) return error();
 
-	if (type->isComposite() == false)
+	if (_pResultType->isType() == false || type->isComposite() == false)
 	{
 		getModule()->logError("Result type of opCompositeConstruct is not a composite type");
 		return error();
-- 
2.43.0


From 4c5ef9a98a6a1c65db1d9aa7ba2bc6985a31f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 090/118] fix: opFrexpStruct accessed the component type of
 scalars

---
 lib/source/GLSL450Instruction.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 6bf091e..c08ab75 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -205,6 +205,11 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opFrexpStruct(Instruction*
 	Instruction* significantType = _pFloat->getResultTypeInstr();
 	if (significantType == nullptr) return error();
 
+	if (significantType->getType()->isScalarOrVectorOf(spv::Op::OpTypeFloat) == false)
+	{
+		getModule()->logError("Operand of opFrexpStruct is not vector or scalar of float");
+		return error();
+	}
 
 	// Result Type must be an OpTypeStruct with two members. Member 0 must have the same type as the type of x.
 	// Member 0 holds the significand. Member 1 must be a scalar or vector with integer component type, with 32 - bit
@@ -212,7 +217,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opFrexpStruct(Instruction*
 	// components.
 
 	Type exponent(*significantType->getType());
-	exponent.front().Int(32);
+	exponent.getBaseType().Int(32);
 
 	Module* module = getModule();
 	Instruction* exponentType = module->addType(exponent);
-- 
2.43.0


From febf5ca81b3f2b560f2262b5a1847fd632dcb78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 091/118] fix: opLength and opDistance refused float scalars

---
 lib/source/GLSL450Instruction.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index c08ab75..d9b2ce8 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -282,15 +282,12 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opLength(Instruction* _pX)
 	const Type* type = _pX->getType();
 	if (type == nullptr) return error();
 
-	if (type->isVectorOfFloat())
+	if (type->isScalarOrVectorOf(spv::Op::OpTypeFloat))
 	{
-		if (auto it = _pX->getResultTypeInstr()->getFirstActualOperand(); it != nullptr && it->isInstruction()) // extract base type
-		{
-			return opExtInst(it->instruction, ExtName, static_cast<unsigned int>(glslstd450::Op::Length), _pX);
-		}
+		return opExtInst(getModule()->addType(type->getBaseType()), ExtName, static_cast<unsigned int>(glslstd450::Op::Length), _pX);
 	}
 
-	getModule()->logError("Operand of opLength is not of type float vector");
+	getModule()->logError("Operand of opLength is not a float scalar or vector");
 
 	return error();
 }
@@ -304,10 +301,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opDistance(Instruction* _p
 
 	if (type1->isScalarOrVectorOfSameLength(spv::Op::OpTypeFloat, *type2))
 	{
-		if (auto it = _pP1->getResultTypeInstr()->getFirstActualOperand(); it != nullptr && it->isInstruction()) // extract base type
-		{
-			return opExtInst(it->instruction, ExtName, static_cast<unsigned int>(glslstd450::Op::Distance), _pP1, _pP2);
-		}
+		return opExtInst(getModule()->addType(type1->getBaseType()), ExtName, static_cast<unsigned int>(glslstd450::Op::Distance), _pP1, _pP2);
 	}
 
 	getModule()->logError("Operand type of opDistance is not a float scalar or vector");
-- 
2.43.0


From fd198190836b9e1f712f2fd2762537e4e73f8b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 092/118] fix: opLdexp refused exponents of another width than
 the significand

---
 lib/source/GLSL450Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index d9b2ce8..587e6a8 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -235,7 +235,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opLdexp(Instruction* _pFlo
 
 	if (xType == nullptr || expType == nullptr) return error();
 
-	if (xType->isScalarOrVectorOfSameLength(*expType) && xType->getBaseType().isFloat() && expType->getBaseType().isInt())
+	if (xType->isScalarOrVectorOfSameLength(*expType, false) && xType->getBaseType().isFloat() && expType->getBaseType().isInt())
 	{
 		return opExtInst(resultType, ExtName, static_cast<unsigned int>(glslstd450::Op::Ldexp), _pFloatX, _pIntExp);
 	}
-- 
2.43.0


From 1ad5cefb39d6c704e010d00f505b93ba741e3d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 093/118] fix: opPow and opAtan2 accepted 64 bit floats

---
 lib/include/spvgentwo/GLSL450Instruction.h | 6 +++---
 lib/source/GLSL450Instruction.cpp          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/GLSL450Instruction.h b/lib/include/spvgentwo/GLSL450Instruction.h
index 77620d5..7de7866 100644
--- a/lib/include/spvgentwo/GLSL450Instruction.h
+++ b/lib/include/spvgentwo/GLSL450Instruction.h
@@ -42,8 +42,8 @@ namespace spvgentwo
 		Instruction* opAcosh(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Acosh, _pFloat, true); }
 		Instruction* opAtanh(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Atanh, _pFloat, true); }
 
-		Instruction* opAtan2(Instruction* _pY, Instruction* _pX) { return scalarOrFloatVec2(glslstd450::Op::Atan2, _pY, _pX); }
-		Instruction* opPow(Instruction* _pX, Instruction* _pY) { return scalarOrFloatVec2(glslstd450::Op::Pow, _pX, _pY); }
+		Instruction* opAtan2(Instruction* _pY, Instruction* _pX) { return scalarOrFloatVec2(glslstd450::Op::Atan2, _pY, _pX, true); }
+		Instruction* opPow(Instruction* _pX, Instruction* _pY) { return scalarOrFloatVec2(glslstd450::Op::Pow, _pX, _pY, true); }
 
 		Instruction* opExp(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Exp, _pFloat, true); }
 		Instruction* opLog(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Log, _pFloat, true); }
@@ -119,7 +119,7 @@ namespace spvgentwo
 
 	private:
 		Instruction* scalarOrFloatVec1(glslstd450::Op _op, Instruction* _pFloat, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
-		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pResultType = nullptr);
+		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrFloatVec3(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pOp3, Instruction* _pResultType = nullptr);
 
 		Instruction* scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, Instruction* _pResultType = nullptr);
diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 587e6a8..e163101 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -21,14 +21,14 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec1(glslstd4
 	return error();
 }
 
-spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pResultType)
+spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit, Instruction* _pResultType)
 {
 	const Type* leftType = _pOp1->getType();
 	const Type* rightType = _pOp2->getType();
 
 	if (leftType == nullptr || rightType == nullptr) return error();
 
-	if (leftType->isScalarOrVectorOf(spv::Op::OpTypeFloat) && *leftType == *rightType)
+	if (leftType->isScalarOrVectorOf(spv::Op::OpTypeFloat) && *leftType == *rightType && (_no64Bit ? leftType->getBaseType().getFloatWidth() <= 32u : true))
 	{
 		Instruction* returnType = _pResultType != nullptr ? _pResultType : _pOp1->getResultTypeInstr();
 		if (returnType == nullptr) return error();
-- 
2.43.0


From 58ad7850ba44bca3c78f77839fc60c23e343fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 094/118] fix: opFindILsb, opFindSMsb and opFindUMsb accepted
 components that are not 32 bit wide

---
 lib/include/spvgentwo/GLSL450Instruction.h | 8 ++++----
 lib/source/GLSL450Instruction.cpp          | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/GLSL450Instruction.h b/lib/include/spvgentwo/GLSL450Instruction.h
index 7de7866..58fd229 100644
--- a/lib/include/spvgentwo/GLSL450Instruction.h
+++ b/lib/include/spvgentwo/GLSL450Instruction.h
@@ -105,9 +105,9 @@ namespace spvgentwo
 		Instruction* opReflect(Instruction* _pI, Instruction* _pN) { return scalarOrFloatVec2(glslstd450::Op::Reflect, _pI, _pN); }
 		Instruction* opRefract(Instruction* _pIvec, Instruction* _pNvec, Instruction* _pEtaFloat);
 		
-		Instruction* opFindILsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindILsb, _pIntVec, Sign::Any); }
-		Instruction* opFindSMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindSMsb, _pIntVec, Sign::Any); }
-		Instruction* opFindUMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindUMsb, _pIntVec, Sign::Any); }
+		Instruction* opFindILsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindILsb, _pIntVec, Sign::Any, 32u); }
+		Instruction* opFindSMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindSMsb, _pIntVec, Sign::Any, 32u); }
+		Instruction* opFindUMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindUMsb, _pIntVec, Sign::Any, 32u); }
 
 		Instruction* opInterpolateAtCentroid(Instruction* _pInterpolant) { return interpolate(glslstd450::Op::InterpolateAtCentroid, _pInterpolant, nullptr); }
 		Instruction* opInterpolateAtSample(Instruction* _pInterpolant, Instruction* _pSampleInt) { return interpolate(glslstd450::Op::InterpolateAtSample, _pInterpolant, _pSampleInt); }
@@ -122,7 +122,7 @@ namespace spvgentwo
 		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrFloatVec3(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pOp3, Instruction* _pResultType = nullptr);
 
-		Instruction* scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, Instruction* _pResultType = nullptr);
+		Instruction* scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, const unsigned int _bitWidth = 0u, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrIntVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Sign _sign, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrIntVec3(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pOp3, Sign _sign, Instruction* _pResultType = nullptr);
 
diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index e163101..b69c822 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -62,7 +62,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec3(glslstd4
 	return error();
 }
 
-spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, Instruction* _pResultType)
+spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, const unsigned int _bitWidth, Instruction* _pResultType)
 {
 	Instruction* pTypeInstr = _pInt->getResultTypeInstr();
 	if (pTypeInstr == nullptr) return error();
@@ -70,7 +70,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrIntVec1(glslstd450
 	const Type* pType = pTypeInstr->getType();
 	if (pType == nullptr) return error();
 
-	if (pType->isScalarOrVectorOf(spv::Op::OpTypeInt) && pType->getBaseType().hasSign(_sign))
+	if (pType->isScalarOrVectorOf(spv::Op::OpTypeInt, 0u, _bitWidth) && pType->getBaseType().hasSign(_sign))
 	{
 		return opExtInst(_pResultType != nullptr ? _pResultType : pTypeInstr, ExtName, static_cast<unsigned int>(_op), _pInt);
 	}
-- 
2.43.0


From 5435014222000311b84b041752a93cd3a46aa46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:08 +0000
Subject: [PATCH 095/118] fix: GrammarHelper::getOperandByName took a prefix of
 the operand's name (or an extension of it) for the name

---
 common/source/GrammarHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/GrammarHelper.cpp b/common/source/GrammarHelper.cpp
index 8fa5084..bab5e1b 100644
--- a/common/source/GrammarHelper.cpp
+++ b/common/source/GrammarHelper.cpp
@@ -20,7 +20,7 @@ namespace
 			++_pRight;
 		}
 
-		return true;
+		return *_pLeft == *_pRight; // one being the prefix of the other is no match
 	}
 }
 
-- 
2.43.0


From c17fee3cba6fa40b8473da98e281a24e8ead106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:08 +0000
Subject: [PATCH 096/118] fix: GrammarHelper took words of a literal string or
 parameters of an enumerant for the operands after them

---
 common/source/GrammarHelper.cpp | 46 +++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/common/source/GrammarHelper.cpp b/common/source/GrammarHelper.cpp
index bab5e1b..c3fda6c 100644
--- a/common/source/GrammarHelper.cpp
+++ b/common/source/GrammarHelper.cpp
@@ -22,6 +22,48 @@ namespace
 
 		return *_pLeft == *_pRight; // one being the prefix of the other is no match
 	}
+
+	// first word after the operand at _it, which is described by _info: literal strings span several words and enumerants may have parameters
+	spvgentwo::Instruction::Iterator nextOperand(const spvgentwo::Grammar& _gram, const spvgentwo::Grammar::Operand& _info, spvgentwo::Instruction::Iterator _it)
+	{
+		using namespace spvgentwo;
+
+		if (_info.kind == Grammar::OperandKind::LiteralString)
+		{
+			return skipLiteralString(_it);
+		}
+
+		const unsigned int value = _it->isLiteral() ? _it->literal.value : 0u;
+		++_it;
+
+		auto skipParameters = [&](unsigned int _enumerant)
+		{
+			if (auto* params = _gram.getOperandParameters(_info.kind, _enumerant); params != nullptr)
+			{
+				for (auto param = params->begin(); param != params->end() && _it != nullptr; ++param)
+				{
+					_it = nextOperand(_gram, *param, _it);
+				}
+			}
+		};
+
+		if (_info.category == Grammar::OperandCategory::BitEnum)
+		{
+			for (unsigned int bit = 0u; bit < 32u; ++bit)
+			{
+				if (value & (1u << bit))
+				{
+					skipParameters(1u << bit);
+				}
+			}
+		}
+		else if (_info.category == Grammar::OperandCategory::ValueEnum)
+		{
+			skipParameters(value);
+		}
+
+		return _it;
+	}
 }
 
 spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getFirstOperandOfKind(const Instruction* _pInstruction, const Grammar& _gram, Grammar::OperandKind _kind, Grammar::Extension _ext)
@@ -37,7 +79,7 @@ spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getFirstOperandOfKind
 				return it;
 			}
 
-			++it;
+			it = nextOperand(_gram, *opIt, it);
 			++opIt;
 		}
 	}
@@ -58,7 +100,7 @@ spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getOperandByName(cons
 				return it;
 			}
 
-			++it;
+			it = nextOperand(_gram, *opIt, it);
 			++opIt;
 		}
 	}
-- 
2.43.0


From 1073d086eb2c4c60ae7909b7d8e1f41f58384b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:23 +0000
Subject: [PATCH 097/118] fix: GrammarHelper read past the grammar's operands
 when the instruction has more words than the grammar has operands

---
 common/source/GrammarHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/source/GrammarHelper.cpp b/common/source/GrammarHelper.cpp
index c3fda6c..9d3961f 100644
--- a/common/source/GrammarHelper.cpp
+++ b/common/source/GrammarHelper.cpp
@@ -72,7 +72,7 @@ spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getFirstOperandOfKind
 	{
 		auto opIt = info->operands.begin();
 
-		for (auto it = _pInstruction->begin(); it != nullptr && opIt != nullptr; )
+		for (auto it = _pInstruction->begin(); it != nullptr && opIt != info->operands.end(); )
 		{
 			if (opIt->kind == _kind)
 			{
@@ -93,7 +93,7 @@ spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getOperandByName(cons
 	{
 		auto opIt = info->operands.begin();
 
-		for (auto it = _pInstruction->begin(); it != nullptr && opIt != nullptr; )
+		for (auto it = _pInstruction->begin(); it != nullptr && opIt != info->operands.end(); )
 		{
 			if (stringCmp(_pName, opIt->name))
 			{
-- 
2.43.0


From 16d5a9b4bc998391bff0e422704efa8be8764750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 098/118] fix: getDescriptorTypeFromVariable took arrays of
 images, samplers and acceleration structures for uniform buffers

---
 common/source/VulkanInterop.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 6aea573..5817600 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -5,6 +5,15 @@
 #include "spvgentwo/Instruction.h"
 #include "spvgentwo/Type.h"
 
+namespace
+{
+	// type of a single resource: an array of descriptors is of the type of its elements
+	const spvgentwo::Type& getResourceType(const spvgentwo::Type& _type)
+	{
+		return (_type.isArray() || _type.isRuntimeArray()) && _type.getSubTypes().empty() == false ? getResourceType(_type.front()) : _type;
+	}
+}
+
 spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionModel(spv::ExecutionModel _model)
 {
 	switch (_model)
@@ -60,7 +69,7 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 		return DescriptorType::VK_DESCRIPTOR_TYPE_MAX_ENUM;
 	}
 
-	const Type& type = ptr->front();
+	const Type& type = getResourceType(ptr->front());
 
 	const spv::StorageClass storage = _variable.getStorageClass();
 
-- 
2.43.0


From 1c728e40259b23ce199c78300d032a94fd6d8cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 099/118] fix: getDescriptorTypeFromVariable did not recognize
 an image and a sampler that share set and binding, it compared with the
 pointer to the resource

---
 common/source/VulkanInterop.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 5817600..af47dc6 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -98,8 +98,10 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 				}
 
 				// we found another variable in the same set
-				if (const Type* otherType = _pVar->getType(); _pVar != &_variable && otherType != nullptr && _pVar->getStorageClass() == spv::StorageClass::UniformConstant)
+				if (const Type* otherPtr = _pVar->getType(); _pVar != &_variable && otherPtr != nullptr && otherPtr->isPointer() && otherPtr->getSubTypes().empty() == false && _pVar->getStorageClass() == spv::StorageClass::UniformConstant)
 				{
+					const Type* otherType = &getResourceType(otherPtr->front());
+
 					// check for [sampler & image] or [image & sampler] variable combo
 					if (((otherType->getType() == spv::Op::OpTypeSampler) && (type.getType() == spv::Op::OpTypeSampledImage || type.getType() == spv::Op::OpTypeImage)) ||
 						((type.getType() == spv::Op::OpTypeSampler) && (otherType->getType() == spv::Op::OpTypeSampledImage || otherType->getType() == spv::Op::OpTypeImage)))
-- 
2.43.0


From 0290b9c75615b9fc033689504222e049d65aa9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:47 +0000
Subject: [PATCH 100/118] fix: getDescriptorTypeFromVariable took a sampled
 image for a texel buffer

---
 common/source/VulkanInterop.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index af47dc6..758238f 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -128,12 +128,17 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 	{
 	case spv::Op::OpTypeSampler:					return DescriptorType::VK_DESCRIPTOR_TYPE_SAMPLER;
 	case spv::Op::OpTypeSampledImage:
+		if (type.front().getImageDimension() != spv::Dim::Buffer)
+		{
+			return DescriptorType::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
+		}
+
 		switch (type.front().getImageSamplerAccess())
 		{
 		case SamplerImageAccess::Sampled:			return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER;
 		case SamplerImageAccess::Storage:			return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER;
 		default:									return DescriptorType::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
-		}		
+		}
 	case spv::Op::OpTypeImage:
 	{
 		switch (type.getImageDimension())
-- 
2.43.0


From d5183c81e364f168b22798cabfc39662df7f49ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:53 +0000
Subject: [PATCH 101/118] fix: getDescriptorTypeFromVariable took storage
 buffers declared with BufferBlock for uniform buffers

---
 common/source/VulkanInterop.cpp | 36 ++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 758238f..346173a 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -12,6 +12,35 @@ namespace
 	{
 		return (_type.isArray() || _type.isRuntimeArray()) && _type.getSubTypes().empty() == false ? getResourceType(_type.front()) : _type;
 	}
+
+	// check for a storage buffer declared the old way: structure decorated with BufferBlock in uniform storage class
+	bool isBufferBlock(const spvgentwo::Instruction& _variable)
+	{
+		using namespace spvgentwo;
+
+		const Instruction* pType = _variable.getResultTypeInstr();
+
+		if (pType == nullptr || *pType != spv::Op::OpTypePointer)
+		{
+			return false;
+		}
+
+		pType = pType->getFirstActualOperand().next()->getInstruction(); // skip storage class
+
+		while (pType != nullptr && (*pType == spv::Op::OpTypeArray || *pType == spv::Op::OpTypeRuntimeArray))
+		{
+			pType = pType->getFirstActualOperand()->getInstruction();
+		}
+
+		bool found = false;
+
+		ReflectionHelper::getDecorationsFunc(pType, [&found](const Instruction* _pDecoration)
+		{
+			found |= *_pDecoration == spv::Op::OpDecorate && ReflectionHelper::getSpvDecorationKindFromDecoration(_pDecoration) == spv::Decoration::BufferBlock;
+		});
+
+		return found;
+	}
 }
 
 spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionModel(spv::ExecutionModel _model)
@@ -167,7 +196,12 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 	default: // assume this is a buffer
 		switch (storage)
 		{
-		case spv::StorageClass::Uniform:			[[fallthrough]];
+		case spv::StorageClass::Uniform:
+			if (isBufferBlock(_variable))
+			{
+				return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
+			}
+			[[fallthrough]];
 		case spv::StorageClass::UniformConstant:	return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER;
 		case spv::StorageClass::StorageBuffer:		return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
 		default:
-- 
2.43.0


From 1f62a2aa801e3a5c5384c3e45d960aae8409560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 102/118] fix: refl did not know the decoration Restrict, its
 name was misspelled

---
 refl/source/refl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refl/source/refl.cpp b/refl/source/refl.cpp
index 39138ca..4014067 100644
--- a/refl/source/refl.cpp
+++ b/refl/source/refl.cpp
@@ -36,7 +36,7 @@ const HeapHashMap<spv::Decoration, const char*> DecorationNames(
 	spv::Decoration::Centroid, (const char*)"Centroid",
 	spv::Decoration::Sample, (const char*)"Sample",
 	spv::Decoration::Invariant, (const char*)"Invariant",
-	spv::Decoration::Restrict, (const char*)"Restrict`",
+	spv::Decoration::Restrict, (const char*)"Restrict",
 	spv::Decoration::Aliased, (const char*)"Aliased",
 	spv::Decoration::Volatile, (const char*)"Volatile",
 	spv::Decoration::Constant, (const char*)"Constant",
-- 
2.43.0


From c8d7c120a0ab93f2125705a5af2eba6eecd7543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 103/118] fix: refl -funcs passed the missing name of a
 function without OpName to printf

---
 refl/source/refl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refl/source/refl.cpp b/refl/source/refl.cpp
index 4014067..5d739c0 100644
--- a/refl/source/refl.cpp
+++ b/refl/source/refl.cpp
@@ -167,7 +167,8 @@ void printFunctions(IModulePrinter& _printer, const Module& _module, const Gramm
 
 	for (const Function& fun : _module.getFunctions())
 	{
-		printf("%s\n", fun.getName());
+		const char* name = fun.getName();
+		printf("%s\n", name != nullptr ? name : "[UNNAMED]");
 
 		printFnType(fun);
 	}
-- 
2.43.0


From ecc19439625f7a14224023c4108df3debe2e8057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 104/118] fix: dis reported success for a file it could not
 open

---
 dis/source/dis.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dis/source/dis.cpp b/dis/source/dis.cpp
index 682cf2b..1c036df 100644
--- a/dis/source/dis.cpp
+++ b/dis/source/dis.cpp
@@ -106,6 +106,7 @@ int main(int argc, char* argv[])
 	else
 	{
 		logger.logError("Failed to open %s", spv);
+		return -1;
 	}
 
 	return 0;
-- 
2.43.0


From 1c80dcaad6b1422c9a47af12171612ec46261da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 105/118] fix: the linker ignored -addcaps unless -verbose was
 given

---
 link/source/link.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 6c2c789..66b7c0f 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -201,7 +201,6 @@ int main(int argc, char* argv[])
 		{ // verbose
 			"-PrintInstructions", "-verbose",
 			[]([[maybe_unused]] int& _i, [[maybe_unused]] int _argc, [[maybe_unused]] char* _argv[]){
-				g_options.grammar = &g_gram;
 				g_options.printer = &g_printer;
 				g_logger.logInfo("Verbose instruction printing enabled");
 				return true;
@@ -292,6 +291,7 @@ int main(int argc, char* argv[])
 	};
 
 	g_options.flags = LinkerOptionBits::AssignResultIDs;
+	g_options.grammar = &g_gram; // AutoAddRequiredCapabilitiesAndExtensions needs the grammar
 	// we dont want to set LinkerOptionBits::UpdateEntryPointGlobalVarInterface, we call finalizeEntryPoints() manually 
 
 	auto checkParam = [argc, argv, &CmdOptions](const char* arg, int& i) -> bool
-- 
2.43.0


From 4193bbf11fc4eedb8e630be1849972cd98b41ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:10 +0000
Subject: [PATCH 106/118] fix: the linker went on and reported success after it
 could not read a module or find a symbol

---
 link/source/link.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 66b7c0f..400ac95 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -124,7 +124,7 @@ int link(const HeapList<Module>& _libs, Module& _target, const LinkerHelper::Lin
 	return 0;
 }
 
-void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
+bool addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 {
 	Instruction* instr = nullptr;
 	const char* target = _argv[++_i];
@@ -139,8 +139,8 @@ void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 
 	if (instr == nullptr)
 	{
-		g_logger.logError("Could not find %s in %s", target, g_patchspv);
-		return;
+		g_logger.logError("Could not find %s in %s", target, g_patchspv != nullptr ? g_patchspv : "module, -patchspv is missing");
+		return false;
 	}
 
 	if (const char* name = _argv[++_i]; name != nullptr)
@@ -155,6 +155,8 @@ void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 		g_targets.emplace_back(instr, name, type, exportVars);
 		g_logger.logInfo("Adding %s target instruction \'%s\' with name \'%s\'", type == spv::LinkageType::Import ? "import" : "export", target, name);
 	}
+
+	return true;
 }
 
 int main(int argc, char* argv[])
@@ -275,16 +277,14 @@ int main(int argc, char* argv[])
 		{ // import symbol
 			"-import", "-i",
 			[](int& _i, int _argc, char* _argv[]) {
-				addTarget(spv::LinkageType::Import, _i, _argc, _argv);
-				return true;
+				return addTarget(spv::LinkageType::Import, _i, _argc, _argv);
 			},
 			2 // symbol name and export name
 		},
 		{ // import symbol
 			"-export", "-e",
 			[](int& _i, int _argc, char* _argv[]) {
-				addTarget(spv::LinkageType::Export, _i, _argc, _argv);
-				return true;
+				return addTarget(spv::LinkageType::Export, _i, _argc, _argv);
 			},
 			2 // symbol name and export name and -vars (optional)
 		}
@@ -319,12 +319,15 @@ int main(int argc, char* argv[])
 			}
 		}
 		g_logger.logWarning("Unkown parameter %s", arg);
-		return false;
+		return true;
 	};
 
 	for (int i = 1; i < argc; ++i)
 	{
-		checkParam(argv[i], i);
+		if (checkParam(argv[i], i) == false)
+		{
+			return -1;
+		}
 	}
 
 	if (g_targets.empty() == false)
-- 
2.43.0


From d79d916274212c27bd3a0f258414380116b065b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:30 +0000
Subject: [PATCH 107/118] fix: refl -deco did not know the decoration Coherent
 and printed all decorations

---
 refl/source/refl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refl/source/refl.cpp b/refl/source/refl.cpp
index 5d739c0..f5b7fce 100644
--- a/refl/source/refl.cpp
+++ b/refl/source/refl.cpp
@@ -40,6 +40,7 @@ const HeapHashMap<spv::Decoration, const char*> DecorationNames(
 	spv::Decoration::Aliased, (const char*)"Aliased",
 	spv::Decoration::Volatile, (const char*)"Volatile",
 	spv::Decoration::Constant, (const char*)"Constant",
+	spv::Decoration::Coherent, (const char*)"Coherent",
 	spv::Decoration::NonWritable, (const char*)"NonWritable",
 	spv::Decoration::NonReadable, (const char*)"NonReadable",
 	spv::Decoration::Uniform, (const char*)"Uniform",
-- 
2.43.0


From 8ec1a32bcaae60cc4877b7107c45a6f6b6f872e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:56 +0000
Subject: [PATCH 108/118] fix: BinaryFileReader::read kept the position and
 words of an earlier read

---
 common/source/BinaryFileReader.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/common/source/BinaryFileReader.cpp b/common/source/BinaryFileReader.cpp
index 179e66c..f10afdb 100644
--- a/common/source/BinaryFileReader.cpp
+++ b/common/source/BinaryFileReader.cpp
@@ -20,6 +20,10 @@ bool spvgentwo::BinaryFileReader::get(unsigned int& _word)
 
 bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sgt_size_t _length)
 {
+	// forget what was read before
+	m_buffer.clear();
+	m_pos = 0u;
+
 	if (_path == nullptr)
 	{
 		return false;
@@ -85,7 +89,13 @@ bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sg
 				return false;
 			}
 
-			return fread(m_buffer.data(), sizeof(sgt_uint32_t), count, file) == count;
+			if (fread(m_buffer.data(), sizeof(sgt_uint32_t), count, file) != count)
+			{
+				m_buffer.clear();
+				return false;
+			}
+
+			return true;
 		}
 	}
 
-- 
2.43.0


From cbaaf551e920cd001ca944517d697e3592def4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:28 +0000
Subject: [PATCH 109/118] fix: BinaryFileWriter::put reported success for a
 word it had no memory for

---
 common/source/BinaryFileWriter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/common/source/BinaryFileWriter.cpp b/common/source/BinaryFileWriter.cpp
index b29e441..1611ac4 100644
--- a/common/source/BinaryFileWriter.cpp
+++ b/common/source/BinaryFileWriter.cpp
@@ -14,8 +14,7 @@ spvgentwo::BinaryFileWriter::~BinaryFileWriter()
 
 bool spvgentwo::BinaryFileWriter::put(unsigned int _word)
 {
-	m_buffer.emplace_back(_word);
-	return true;
+	return m_buffer.emplace_back(_word) != nullptr;
 }
 
 bool spvgentwo::BinaryFileWriter::open(const char* _path)
-- 
2.43.0


From d94a4742d37d38922737b8121d7b43bebdbf0ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 110/118] fix: Vector and String used released or overwritten
 elements when an element of their own was added

---
 lib/include/spvgentwo/String.h |  4 +--
 lib/include/spvgentwo/Vector.h | 50 ++++++++++++++++++++++++++++++----
 lib/source/String.cpp          | 13 +++++++++
 3 files changed, 59 insertions(+), 8 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 32b9586..0a98e52 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -111,10 +111,10 @@ namespace spvgentwo
 			Vector::emplace_back('\0');
 			return &back();
 		}
-		else if (reserve(m_elements+1u))
+		else if (const char element = stdrep::forward<Arg>(_arg); reserve(m_elements+1u)) // _arg can refer to this string
 		{
 			m_pData[m_elements] = m_pData[m_elements - 1]; // move string terminator to last element
-			m_pData[m_elements - 1] = stdrep::forward<Arg>(_arg); // new element is 2nd last
+			m_pData[m_elements - 1] = element; // new element is 2nd last
 			++m_elements;
 			return &back();
 		}
diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 4d4d058..c5c6a29 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -91,6 +91,12 @@ namespace spvgentwo
 	protected:
 		void deallocate();
 
+		// move elements to _pNewData and release the current storage
+		void relocate(T* _pNewData, sgt_size_t _capacity);
+
+		// check if _pData points to an element of this vector
+		constexpr bool owns(const T* _pData) const { return _pData != nullptr && _pData >= m_pData && _pData < m_pData + m_elements; }
+
 	protected:
 		IAllocator* m_pAllocator = nullptr;
 
@@ -238,12 +244,20 @@ namespace spvgentwo
 			return false;
 		}
 
+		relocate(pNewData, _size);
+
+		return true;
+	}
+
+	template<class U>
+	inline void Vector<U>::relocate(T* _pNewData, sgt_size_t _capacity)
+	{
 		if ( m_pData != nullptr )
 		{
 			//  move or copy old to new data (if any)
 			for ( sgt_size_t i = 0u; i < m_elements; ++i )
 			{
-				traits::constructWithArgs(pNewData + i, stdrep::move(m_pData[i]));
+				traits::constructWithArgs(_pNewData + i, stdrep::move(m_pData[i]));
 			}
 
 			// free old data
@@ -254,10 +268,8 @@ namespace spvgentwo
 			m_pAllocator->deallocate(m_pData, m_capacity * sizeof(T));
 		}
 
-		m_pData = pNewData;
-		m_capacity = _size;  // number of elements does not change
-
-		return true;
+		m_pData = _pNewData;
+		m_capacity = _capacity;  // number of elements does not change
 	}
 
 	template<class U>
@@ -265,11 +277,19 @@ namespace spvgentwo
 	{
 		if ( _size > m_elements ) // grow
 		{
+			const bool own = owns(_pInitValue);
+			const sgt_size_t index = own ? static_cast<sgt_size_t>(_pInitValue - m_pData) : 0u;
+
 			if ( reserve(_size) == false )
 			{
 				return false;
 			}
 
+			if ( own ) // might have been reallocated
+			{
+				_pInitValue = m_pData + index;
+			}
+
 			if ( _pInitValue == nullptr || stdrep::is_copy_constructible_v<T> == false )
 			{
 				for ( sgt_size_t i = m_elements; i < _size; ++i )
@@ -344,6 +364,13 @@ namespace spvgentwo
 			return nullptr;
 		}
 
+		// elements of this vector are about to be moved, insert a copy
+		if ( owns(_pData) )
+		{
+			const Vector<U> copy(m_pAllocator, _pData, _count);
+			return copy.size() == _count ? Vector<U>::insert(_pos, copy.data(), _count) : nullptr;
+		}
+
 		// no reallocation needed
 		if ( m_elements + _count <= m_capacity )
 		{
@@ -443,10 +470,21 @@ namespace spvgentwo
 		if ( m_elements >= m_capacity )
 		{
 			// grow by factor 1.25 + 1
-			if ( reserve(m_capacity + 1u + (m_capacity >> 2)) == false )
+			const sgt_size_t capacity = m_capacity + 1u + (m_capacity >> 2);
+			T* pNewData = m_pAllocator != nullptr ? static_cast<T*>(m_pAllocator->allocate(capacity * sizeof(T), alignof(T))) : nullptr;
+
+			if ( pNewData == nullptr )
 			{
 				return nullptr;
 			}
+
+			// arguments can refer to elements of this vector, construct the new element before they are moved
+			T* pElement = traits::constructWithArgs(pNewData + m_elements, stdrep::forward<Args>(_args)...);
+
+			relocate(pNewData, capacity);
+			++m_elements;
+
+			return pElement;
 		}
 
 		return traits::constructWithArgs(m_pData + m_elements++, stdrep::forward<Args>(_args)...);
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 77c3009..debedad 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -46,6 +46,11 @@ spvgentwo::String spvgentwo::String::operator+(const char* _pStr) const
 
 spvgentwo::String& spvgentwo::String::operator+=(const String& _other)
 {
+	if (this == &_other)
+	{
+		return m_elements > 0u ? append(m_pData, m_elements) : *this;
+	}
+
 	if (_other.m_elements > 0u && reserve(m_elements + _other.m_elements))
 	{
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
@@ -66,6 +71,14 @@ spvgentwo::String& spvgentwo::String::operator+=(const char* _pStr)
 spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _length)
 {
 	const sgt_size_t length = _length == 0u ? stringLength(_pStr) : _length;
+
+	// characters of this string are about to be moved and the terminator is overwritten, append a copy
+	if (owns(_pStr))
+	{
+		const String copy(m_pAllocator, _pStr, length);
+		return copy.m_elements == length ? append(copy.m_pData, length) : *this;
+	}
+
 	if (reserve(m_elements + length))
 	{
 		// we only want one string terminator, overwrite the old one an append
-- 
2.43.0


From 2c5a2e8f3867f2ae0c283663b4828c569845737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:12 +0000
Subject: [PATCH 111/118] fix: assigning a part of a type or constant to the
 whole used the released part

---
 lib/source/Constant.cpp |  9 +++++++--
 lib/source/Type.cpp     | 10 ++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/source/Constant.cpp b/lib/source/Constant.cpp
index a0daf80..fa596c2 100644
--- a/lib/source/Constant.cpp
+++ b/lib/source/Constant.cpp
@@ -32,10 +32,13 @@ spvgentwo::Constant& spvgentwo::Constant::operator=(const Constant& _other)
 {
 	if (this == &_other) return *this;
 
-	m_Components = _other.m_Components;
+	List<Constant> components(m_Components.getAllocator()); // _other can be one of our components, which are released last
+	components = _other.m_Components;
+
 	m_literalData = _other.m_literalData;
 	m_Operation = _other.m_Operation;
 	m_Type = _other.m_Type;
+	m_Components = stdrep::move(components);
 
 	return *this;
 }
@@ -44,10 +47,12 @@ spvgentwo::Constant& spvgentwo::Constant::operator=(Constant&& _other) noexcept
 {
 	if (this == &_other) return *this;
 
-	m_Components = stdrep::move(_other.m_Components);
+	List<Constant> components(stdrep::move(_other.m_Components)); // _other can be one of our components, which are released last
+
 	m_literalData = stdrep::move(_other.m_literalData);
 	m_Operation = stdrep::move(_other.m_Operation);
 	m_Type = stdrep::move(_other.m_Type);
+	m_Components = stdrep::move(components);
 
 	return *this;
 }
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index 03ac404..27e85cd 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -52,7 +52,7 @@ spvgentwo::Type& spvgentwo::Type::operator=(Type&& _other) noexcept
 {
 	if (this == &_other) return *this;
 
-	m_subTypes = stdrep::move(_other.m_subTypes);
+	List<Type> subTypes(stdrep::move(_other.m_subTypes)); // _other can be one of our sub types, which are released last
 
 	m_Type = _other.m_Type;
 	m_IntSign = _other.m_IntSign;
@@ -65,12 +65,16 @@ spvgentwo::Type& spvgentwo::Type::operator=(Type&& _other) noexcept
 	m_StorageClass = _other.m_StorageClass;
 	m_AccessQualifier = _other.m_AccessQualifier;
 
+	m_subTypes = stdrep::move(subTypes);
+
 	return *this;
 }
 spvgentwo::Type& spvgentwo::Type::operator=(const Type& _other)
 {
 	if (this == &_other) return *this;
-	m_subTypes = _other.m_subTypes;
+
+	List<Type> subTypes(m_subTypes.getAllocator()); // _other can be one of our sub types, which are released last
+	subTypes = _other.m_subTypes;
 
 	m_Type = _other.m_Type;
 	m_IntSign = _other.m_IntSign;
@@ -83,6 +87,8 @@ spvgentwo::Type& spvgentwo::Type::operator=(const Type& _other)
 	m_StorageClass = _other.m_StorageClass;
 	m_AccessQualifier = _other.m_AccessQualifier;
 
+	m_subTypes = stdrep::move(subTypes);
+
 	return *this;
 }
 
-- 
2.43.0


From cbe423a905fac61ee832b157c53e659d3d7cf48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:15 +0000
Subject: [PATCH 112/118] fix: addGlobalVariableInstr refused every name it was
 given

---
 lib/source/Module.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 9abe5be..40f299a 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -326,6 +326,7 @@ spvgentwo::Instruction* spvgentwo::Module::addGlobalVariableInstr(const char* _p
 
 	if (_pName != nullptr)
 	{
+		pVar->setOperation(spv::Op::OpVariable); // only an instruction with a result can be named
 		addName(pVar, _pName);
 	}
 
-- 
2.43.0


From 1178e4f12b14eb57e5d7e93d8e2c46267e28a66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:55 +0000
Subject: [PATCH 113/118] fix: two memory operand masks for OpCopyMemory were
 refused for SPIR-V 1.4

---
 lib/include/spvgentwo/InstructionTemplate.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 0cea400..24dc32b 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -493,9 +493,9 @@ namespace spvgentwo
 			return; // early out
 		}
 
-		if (module->getSpvVersion() <= makeVersion(1u, 4u) && _sourceMemOperands)
+		if (module->getSpvVersion() < makeVersion(1u, 4u) && _sourceMemOperands)
 		{
-			module->logError("Operand _sourceMemOperands of OpCopyMemory not supported before SPIR-V 1.5");
+			module->logError("Operand _sourceMemOperands of OpCopyMemory not supported before SPIR-V 1.4");
 			return;
 		}
 
-- 
2.43.0


From 02b69f886c1ccb70a2fc187bc32e23229723afce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:55 +0000
Subject: [PATCH 114/118] fix: operands of the target's memory operand mask
 followed the source's mask in OpCopyMemory

---
 lib/include/spvgentwo/InstructionTemplate.inl | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 24dc32b..cf0fe29 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -452,24 +452,24 @@ namespace spvgentwo
 			}
 		}
 
-		auto makeOpCopyMemory = [&](auto... args)
+		auto makeOpCopyMemory = [&](auto... args) -> bool
 		{
 			if(_pSizeInt == nullptr)
 			{
 				if( targetType->front().isVoid() || sourceType->front().isVoid() )
 				{
 					module->logError( "Operand of OpCopyMemory must not contain any pointer to OpTypeVoid" );
-					return;
+					return false;
 				}
 				else if( targetType->containsType( spv::Op::OpTypeRuntimeArray ) || sourceType->containsType( spv::Op::OpTypeRuntimeArray ) )
 				{
 					module->logError( "Operand of OpCopyMemory must not contain any OpTypeRuntimeArray" );
-					return;
+					return false;
 				}
 				else if( targetType->front() != sourceType->front() )
 				{
 					module->logError( "Operand types for _pTargetPtr and _pSourcePtr of OpCopyMemory don't match" );
-					return;
+					return false;
 				}
 
 				makeOp(spv::Op::OpCopyMemory, _pTargetPtr, _pSourcePtr, args...);
@@ -478,6 +478,7 @@ namespace spvgentwo
 			{
 				makeOp(spv::Op::OpCopyMemorySized, _pTargetPtr, _pSourcePtr, _pSizeInt, args...);
 			}
+			return true;
 		};
 
 		// no memory operands provided
@@ -512,7 +513,27 @@ namespace spvgentwo
 				return;
 			}
 
-			makeOpCopyMemory(literal_t{ _targetMemOperands }, literal_t{ _sourceMemOperands }, _operands...);
+			if (makeOpCopyMemory(literal_t{ _targetMemOperands }))
+			{
+				// each mask is followed by the operands it announces
+				unsigned int targetOperands = 0u;
+				const spv::MemoryAccessMask announcing[] = { spv::MemoryAccessMask::Aligned, spv::MemoryAccessMask::MakePointerAvailable, spv::MemoryAccessMask::AliasScopeINTELMask, spv::MemoryAccessMask::NoAliasINTELMask };
+				for (const spv::MemoryAccessMask mask : announcing)
+				{
+					if (_targetMemOperands & mask) ++targetOperands;
+				}
+
+				unsigned int index = 0u;
+				[[maybe_unused]] auto append = [&](auto _operand)
+				{
+					if (index++ == targetOperands) addOperand(literal_t{ _sourceMemOperands });
+					makeOpInternal(_operand);
+				};
+
+				(append(_operands), ...);
+
+				if (index <= targetOperands) addOperand(literal_t{ _sourceMemOperands });
+			}
 		}
 	}
 
-- 
2.43.0


From e39b32d6838d475e802122fdab9c505b1c5f16fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:10 +0000
Subject: [PATCH 115/118] fix: Callable returns its memory with the size it was
 allocated with

---
 common/include/common/Callable.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 6f8336d..ba7898d 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -88,6 +88,7 @@ namespace spvgentwo
 			virtual ~ICallable() = default;
 			virtual ReturnType invoke(Args...) = 0;
 			virtual ICallable* copy(IAllocator* _pAllocator) const = 0;
+			virtual void destroy(IAllocator* _pAllocator) = 0;
 		};
 
 		template <typename Functor>
@@ -109,6 +110,11 @@ namespace spvgentwo
 				return _pAllocator->construct<CallableImpl<Functor>>(m_func);
 			}
 
+			void destroy(IAllocator* _pAllocator) final
+			{
+				_pAllocator->destruct(this);
+			}
+
 		private:
 			Functor m_func;
 		};
@@ -213,7 +219,7 @@ namespace spvgentwo
 		{
 			if (m_pAllocator != nullptr && m_pCallable != nullptr)
 			{
-				m_pAllocator->destruct(m_pCallable);
+				m_pCallable->destroy(m_pAllocator);
 				m_pCallable = nullptr;
 			}
 		}
-- 
2.43.0


From f56abd12e599796c6f9fb43157767b625a4f4570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:10 +0000
Subject: [PATCH 116/118] fix: assigning a Callable to itself keeps it,
 assigning an empty one empties it

---
 common/include/common/Callable.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index ba7898d..1116bfe 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -192,9 +192,14 @@ namespace spvgentwo
 
 		Callable& operator=(const Callable& _other)
 		{
+			if (this == &_other) return *this;
+
 			reset();
 			m_pAllocator = _other.m_pAllocator;
-			m_pCallable = _other.m_pCallable->copy(m_pAllocator);
+			if (_other.m_pCallable != nullptr && m_pAllocator != nullptr)
+			{
+				m_pCallable = _other.m_pCallable->copy(m_pAllocator);
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 77971805e89277aa35215e871a3cfee928d085fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:10 +0000
Subject: [PATCH 117/118] fix: assigning a HeapCallable assigns what it holds
 instead of wrapping the other HeapCallable

---
 common/include/common/HeapCallable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/HeapCallable.h b/common/include/common/HeapCallable.h
index 7bf9552..22c7ead 100644
--- a/common/include/common/HeapCallable.h
+++ b/common/include/common/HeapCallable.h
@@ -20,8 +20,8 @@ namespace spvgentwo
 
 		virtual ~HeapCallable() override = default;
 
-		HeapCallable& operator=(const HeapCallable& _other) { Callable<Func>::operator=(_other); return *this; }
-		HeapCallable& operator=(HeapCallable&& _other) noexcept { Callable<Func>::operator=(stdrep::move(_other)); return *this; }
+		HeapCallable& operator=(const HeapCallable& _other) { Callable<Func>::operator=(static_cast<const Callable<Func>&>(_other)); return *this; }
+		HeapCallable& operator=(HeapCallable&& _other) noexcept { Callable<Func>::operator=(static_cast<Callable<Func>&&>(_other)); return *this; }
 
 		template <typename ...Args>
 		HeapCallable& operator=(Args&& ..._args) noexcept { Callable<Func>::operator=(stdrep::forward<Args>(_args)...); return *this; }
-- 
2.43.0


From 54c488fef9b54929a57687420705c0796f69ae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:45 +0000
Subject: [PATCH 118/118] fix: a function held by a Callable received copies of
 what its reference parameters refer to

---
 common/include/common/Callable.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 1116bfe..8e7079b 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -12,8 +12,7 @@ namespace spvgentwo
 
 		operator bool() const { return pFn != nullptr; }
 
-		template <typename ... OtherArgs>
-		ReturnType operator()(OtherArgs... _args) const { return (*pFn)(_args...); }
+		ReturnType operator()(Args... _args) const { return (*pFn)(stdrep::forward<Args>(_args)...); }
 	};
 
 	template <typename ReturnType, typename... Args>
@@ -31,7 +30,7 @@ namespace spvgentwo
 
 		operator bool() const { return pFn != nullptr; }
 
-		ReturnType operator()(Args... _args) const { return (pObj->*pFn)(_args...); }
+		ReturnType operator()(Args... _args) const { return (pObj->*pFn)(stdrep::forward<Args>(_args)...); }
 	};
 
 	template <typename Obj, typename ReturnType, typename... Args>
-- 
2.43.0

