From cecdea3bc8f3bbf704b35e7c45906cbcd114964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 001/127] fix: ArrayList.add(index, e) inserts at the end and
 refuses illegal indexes

---
 library/Java/Util/ArrayList/ArrayList.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 7d582cc..e504235 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -154,8 +154,10 @@ namespace Java {
 			 * @param element
 			 */
 			void add(int index, const E element) {
-				if (index < 0 || index > this->original.size() - 1) {
-					return;
+				if (index < 0 || index > this->size()) {
+					String message = "Index out of range: ";
+					message += Integer(index).stringValue();
+					throw IndexOutOfBoundsException(message);
 				}
 				this->original.insert(this->original.begin() + index, element);
 			}
-- 
2.43.0


From a1ef7e403bda94fa9a28ad77cbb6acd85c815760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 002/127] fix: ArrayList.set returns the element it replaced

---
 library/Java/Util/ArrayList/ArrayList.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index e504235..33e86ca 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -440,8 +440,9 @@ namespace Java {
 					message += Integer(index).stringValue();
 					throw IndexOutOfBoundsException(message);
 				}
+				E previous = this->original[index];
 				this->original[index] = element;
-				return this->original[index];
+				return previous;
 			}
 
 			/**
-- 
2.43.0


From 11231ddfab9bdadb179ea27872ad61ef3938dd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 003/127] fix: Vector.addAll(list) appends at the end, as
 documented

---
 library/Java/Util/Vector/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index eac0eaf..ed27064 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -154,7 +154,7 @@ namespace Java {
              * @return boolean
              */
             boolean addAll(const std::initializer_list<E> &list) {
-                return this->addAll(0, list);
+                return this->addAll(this->size(), list);
             }
 
             /**
-- 
2.43.0


From 4fe9f538fe12197eebe22ac9540753084275306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 004/127] fix: Vector initialises capacityIncrement in every
 constructor

---
 library/Java/Util/Vector/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index ed27064..f365855 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -89,7 +89,7 @@ namespace Java {
              *
              * @param list
              */
-            Vector(const std::initializer_list<E> &list) {
+            Vector(const std::initializer_list<E> &list) : capacityIncrement(0) {
                 this->original.reserve(list.size());
                 typename std::initializer_list<E>::iterator listIterator;
                 for (listIterator = list.begin();
@@ -104,7 +104,7 @@ namespace Java {
              *
              * @param target
              */
-            Vector(const Vector<E> &target) {
+            Vector(const Vector<E> &target) : capacityIncrement(target.capacityIncrement) {
                 const E *targetData = target.original.data();
                 int index;
                 for (index = 0; index < target.original.size(); index++) {
-- 
2.43.0


From 07760f6b5a5b136d4d68d346cd1588581650d052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 005/127] fix: Vector.lastIndexOf and Stack.search report
 absence on an empty vector

---
 library/Java/Util/Vector/Vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index f365855..7a373e6 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -441,6 +441,10 @@ namespace Java {
              * @return int
              */
             int lastIndexOf(const E &element) const {
+                if (this->original.empty()) {
+                    return -1;
+                }
+
                 int maxIndex = (int) this->original.size() - 1;
                 return this->lastIndexOf(element, maxIndex);
             }
-- 
2.43.0


From 6bce4073203b8a29ce37eb18c228d41881e375e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 006/127] fix: Vector self-assignment keeps the elements

---
 library/Java/Util/Vector/Vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 7a373e6..fcdd35a 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -891,6 +891,10 @@ namespace Java {
              * @return Vector<E>
              */
             Vector<E> &operator=(const Vector<E> &target) {
+                if (this == &target) {
+                    return *this;
+                }
+
                 this->clear();
                 this->ensureCapacity(target.size());
                 const E *targetData = target.original.data();
-- 
2.43.0


From dcf72a272c94fc767220e4c0b1e582d0bba52b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 007/127] fix: Vector.remove of an object of another type
 removes nothing

---
 library/Java/Util/Vector/Vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index fcdd35a..a149b6a 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -515,6 +515,10 @@ namespace Java {
              */
             boolean remove(const Object &element) {
                 const E *referenceToElement = dynamic_cast<const E *>(&element);
+                if (referenceToElement == nullptr) {
+                    return false;
+                }
+
                 int index;
                 for (index = 0; index < this->original.size(); index++) {
                     if ((*referenceToElement) == this->original[index]) {
-- 
2.43.0


From 5f836964eb905bcc4da9f79e4d449385775ec7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 008/127] fix: Vector.removeRange accepts the size as its
 (exclusive) end

---
 library/Java/Util/Vector/Vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index a149b6a..6216d00 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -601,7 +601,7 @@ namespace Java {
                 if (fromIndex < 0
                     || fromIndex >= currentSize
                     || toIndex < 0
-                    || toIndex >= currentSize) {
+                    || toIndex > currentSize) {
                     throw IllegalArgumentException("index is out of range");
                 }
 
-- 
2.43.0


From ccc54066f52219e4eeb0e419bbf3ee5988f83400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 009/127] fix: LinkedList refuses an illegal index in get and
 remove, also when empty

---
 library/Java/Util/LinkedList/LinkedList.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index b1c6490..1b3d2bc 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -175,7 +175,7 @@ namespace Java {
                      * @return E
                      */
                     E get(int index) {
-                        if (index < 0 || index > this->original.size() - 1) {
+                        if (index < 0 || index >= (int) this->original.size()) {
                             throw IndexOutOfBoundsException("Index is out of bounds!");
                         }
                         typename std::list<Node<E>*>::iterator it =  std::next(this->original.begin(), index);
@@ -329,6 +329,10 @@ namespace Java {
                      * @return boolean
                      */
                     boolean remove(int index) {
+                        if (index < 0 || index >= (int) this->original.size()) {
+                            throw IndexOutOfBoundsException("Index is out of bounds!");
+                        }
+
                         int pos = 0;
                         for (typename std::list<Node<E>*>::iterator it = this->original.begin(); it != this->original.end(); ++it) {
                             if (pos == index) {
-- 
2.43.0


From 13ac38486bed3a66be1f266a7482003750038447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 010/127] fix: LinkedList reports NoSuchElement instead of
 reading the ends of an empty list

---
 library/Java/Util/LinkedList/LinkedList.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 1b3d2bc..0520ed6 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -165,7 +165,10 @@ namespace Java {
                      * @return E
                      */
                     E element() {
-                        this->original.front()->element;
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("List is empty!");
+                        }
+                        return this->original.front()->element;
                     }
 
                     /**
@@ -188,6 +191,9 @@ namespace Java {
                      * @return E
                      */
                     E getFirst() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("List is empty!");
+                        }
                         return original.front()->element;
                     }
 
@@ -197,6 +203,9 @@ namespace Java {
                      * @return E
                      */
                     E getLast() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("List is empty!");
+                        }
                         var node = this->original.back();
                         return node->element;
                     }
@@ -275,6 +284,9 @@ namespace Java {
                      * @return E
                      */
                     E pollFirst() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("List is empty!");
+                        }
                         var  node = this->original.front();
                         this->original.pop_front();
                         var element = node->element;
@@ -288,6 +300,9 @@ namespace Java {
                      * @return E
                      */
                     E pollLast() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("List is empty!");
+                        }
                         var node = this->original.back();
                         this->original.pop_back();
                         var element = node->element;
@@ -365,6 +380,9 @@ namespace Java {
                     }
 
                     E removeLast() {
+                        if (this->original.empty()) {
+                            throw NoSuchElementException("List is empty!");
+                        }
                         var node = this->original.back();
                          this->original.pop_back();
                          var element = node->element;
-- 
2.43.0


From 10a85ddf7c3db2159f8f4c358e89cc728527a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 011/127] fix: LinkedList.remove(node) reports whether the node
 was in the list

---
 library/Java/Util/LinkedList/LinkedList.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 0520ed6..9e66673 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -373,10 +373,10 @@ namespace Java {
                                 var node2 = *it;
                                 this->original.erase(it);
                                 delete node2;
-                                break;
+                                return true;
                             }
                         }
-                        return true;
+                        return false;
                     }
 
                     E removeLast() {
-- 
2.43.0


From e98efe51fd976a5171ff5b7515fbda0d9266ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 012/127] fix: LinkedList.offer and LinkedList.set do what they
 document (they did not compile)

---
 library/Java/Util/LinkedList/LinkedList.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index 9e66673..b81d536 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -217,7 +217,7 @@ namespace Java {
                      * @return boolean
                      */
                     boolean offer(const E &element) {
-                        this->original.push_back();
+                        this->original.push_back(new Node<E>(element));
                         return true;
                     }
 
@@ -397,10 +397,10 @@ namespace Java {
                      * @param element
                      * @return E
                      */
-                    E set(int index, E &element) {
-                        var value = get(index);
-                        *value = element;
-                        return element;
+                    E set(int index, const E &element) {
+                        E replaced = get(index);
+                        (*std::next(this->original.begin(), index))->element = element;
+                        return replaced;
                     }
 
                     /**
-- 
2.43.0


From f3a3035453c5ea39a171ea0e835296dfd4115978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 013/127] fix: LinkedList copies own their nodes (copies shared
 and double-freed them)

---
 library/Java/Util/LinkedList/LinkedList.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/library/Java/Util/LinkedList/LinkedList.hpp b/library/Java/Util/LinkedList/LinkedList.hpp
index b81d536..0a822a1 100755
--- a/library/Java/Util/LinkedList/LinkedList.hpp
+++ b/library/Java/Util/LinkedList/LinkedList.hpp
@@ -80,6 +80,22 @@ namespace Java {
                         }
                     }
 
+                    LinkedList(const LinkedList<E> &target) {
+                        for (Node<E> *node : target.original) {
+                            this->add(node->element);
+                        }
+                    }
+
+                    LinkedList<E> &operator=(const LinkedList<E> &target) {
+                        if (this != &target) {
+                            this->clear();
+                            for (Node<E> *node : target.original) {
+                                this->add(node->element);
+                            }
+                        }
+                        return *this;
+                    }
+
                     ~LinkedList() {
                         this->clear();
                     }
-- 
2.43.0


From e39e5f7f9eca7534c94e37fc29faeefc0fc7b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 014/127] fix: PriorityQueue.remove restores the heap order

---
 library/Java/Util/PriorityQueue/PriorityQueue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index 1a5757b..c81bcd5 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -226,6 +226,7 @@ namespace Java {
 							targetIterator = std::find(this->original.begin(), this->original.end(), target);
 							if (targetIterator != this->original.end()) {
 								this->original.erase(targetIterator);
+								std::make_heap(this->original.begin(), this->original.end());
 								return true;
 							}
 							return false;
-- 
2.43.0


From d0562e0924e6dda4fbbf35df609163080ad3cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 015/127] fix: PriorityQueue.poll leaves an empty queue alone
 and peek never returns an indeterminate value

---
 library/Java/Util/PriorityQueue/PriorityQueue.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/PriorityQueue/PriorityQueue.hpp b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
index c81bcd5..612f589 100755
--- a/library/Java/Util/PriorityQueue/PriorityQueue.hpp
+++ b/library/Java/Util/PriorityQueue/PriorityQueue.hpp
@@ -196,7 +196,7 @@ namespace Java {
 						 * @return E
 						 */
 						E peek() const {
-							E defaultOfE;
+							E defaultOfE = E();
 							if (this->original.empty()) {
 								return defaultOfE;
 							}
@@ -210,6 +210,11 @@ namespace Java {
 						 */
 						E poll() {
 							E result = this->peek();
+
+							if (this->original.empty()) {
+								return result;
+							}
+
 							std::pop_heap(this->original.begin(), this->original.end());
 							this->original.pop_back();
 							return result;
@@ -285,7 +290,7 @@ namespace Java {
 							}
 							// Add "null" terminator (but must use default value).
 							if (anArray.length > originalSize) {
-								E defaultOfE;
+								E defaultOfE = E();
 								anArray[ indexOfArray ] = defaultOfE;
 							}
 							return anArray;
-- 
2.43.0


From ada2bd2265915519b5c2f41d637c364381c93058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 016/127] fix: HashMap.put replaces the value of an existing
 key

---
 library/Java/Util/HashMap/HashMap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 16e5450..599e7fe 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -400,7 +400,7 @@ namespace Java {
 			 * @param value
 			 */
 			void put(const K &key, const V &value) {
-				this->original.insert(std::pair<K, V>(key, value));
+				this->original[key] = value;
 			}
 
 			/**
-- 
2.43.0


From 02fc235a490609ae0dfc3b07864c2b12c6c7d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 017/127] fix: HashMap.equals tells a missing key from a
 default value

---
 library/Java/Util/HashMap/HashMap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 599e7fe..2cd6b40 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -123,8 +123,9 @@ namespace Java {
 				}
 
 				for (var const &thisElement : this->original) {
-					V anotherValue = anotherHashMap.get(thisElement.first);
-					if (thisElement.second != anotherValue) {
+					auto const anotherElement = anotherHashMap.original.find(thisElement.first);
+					if (anotherElement == anotherHashMap.original.end()
+					    || thisElement.second != anotherElement->second) {
 						return false;
 					}
 				}
-- 
2.43.0


From f946fa059d5b8668bef12d407813e8f6b8eca70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 018/127] fix: HashMap reports an absent value as the default
 value, never an indeterminate one

---
 library/Java/Util/HashMap/HashMap.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/Java/Util/HashMap/HashMap.hpp b/library/Java/Util/HashMap/HashMap.hpp
index 2cd6b40..53e2e12 100755
--- a/library/Java/Util/HashMap/HashMap.hpp
+++ b/library/Java/Util/HashMap/HashMap.hpp
@@ -352,7 +352,7 @@ namespace Java {
 				if (iteratorToString == this->original.end()) {
 					// Default value if could not found
 					// Prevent null pointer reference
-					V value;
+					V value = V();
 				    return value;
 				}
 				return iteratorToString->second;
@@ -371,7 +371,7 @@ namespace Java {
 			 * 							for the key
 			 */
 			V getOrDefault(const K &key, const V &defaultValue) const {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -430,7 +430,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V putIfAbsent(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorFind = this->original.find(key);
 
 				if (iteratorFind == this->original.end()) {
@@ -454,7 +454,7 @@ namespace Java {
 			 * 					previously associated null with key.)
 			 */
 			V remove(const K &key) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -504,7 +504,7 @@ namespace Java {
 			 * 					if the implementation supports null values.)
 			 */
 			V replace(const K &key, const V &value) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()) {
@@ -532,7 +532,7 @@ namespace Java {
 			boolean replace(const K &key,
 			                const V &oldValue,
 			                const V &newValue) {
-				V result;
+				V result = V();
 				auto const iteratorToString = this->original.find(key);
 
 				if (iteratorToString == this->original.end()
-- 
2.43.0


From b096d4bca0056e1509b7563f20d557ec74ed339a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 019/127] fix: Map.Entry ordering is a strict order on keys, as
 std::set requires

---
 library/Java/Util/Map/Map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Map/Map.hpp b/library/Java/Util/Map/Map.hpp
index f5da57b..87e4b12 100755
--- a/library/Java/Util/Map/Map.hpp
+++ b/library/Java/Util/Map/Map.hpp
@@ -168,7 +168,7 @@ namespace Java {
 								}
 								
 								boolean operator<(const Map<K, V>::Entry &target) const {
-									return true;
+									return this->key < target.key;
 								}
 						};
 						
-- 
2.43.0


From de55ad2f913f18a2bd3d45b7daffe9a02c82ad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 020/127] fix: Map.Entry.setValue returns the replaced value
 (it returned nothing)

---
 library/Java/Util/Map/Map.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/Java/Util/Map/Map.hpp b/library/Java/Util/Map/Map.hpp
index 87e4b12..b5c49bb 100755
--- a/library/Java/Util/Map/Map.hpp
+++ b/library/Java/Util/Map/Map.hpp
@@ -164,7 +164,9 @@ namespace Java {
 								 * @return V
 								 */
 								V setValue(V value) {
+									V oldValue = this->value;
 									this->value = value;
+									return oldValue;
 								}
 								
 								boolean operator<(const Map<K, V>::Entry &target) const {
-- 
2.43.0


From 258df2eab3755b541584eb5d41c7cdd115674be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 021/127] fix: BitSet.flip(from, to) flips nothing past an end
 index on a word boundary

---
 library/Java/Util/BitSet/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index d144681..b40b4df 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -333,7 +333,7 @@ void BitSet::flip(int fromIndex, int toIndex) {
     }
 
     int startWordIndex = this->wordIndex(fromIndex);
-    int endWordIndex = this->wordIndex(toIndex);
+    int endWordIndex = this->wordIndex(toIndex - 1);
     this->expandTo(endWordIndex);
 
     long firstWordMask = WORD_MASK << fromIndex;
-- 
2.43.0


From 0ff18a1cb807fd228de934daa5c082facf5232a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 022/127] fix: BitSet.intersects reads only the words in use

---
 library/Java/Util/BitSet/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index b40b4df..6d203db 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -437,7 +437,7 @@ int BitSet::hashCode() const {
 boolean BitSet::intersects(const BitSet &set) {
     int endWordIndex = Math::min(this->wordsInUse, set.wordsInUse);
     int index;
-    for (index = 0; index <= endWordIndex; ++index) {
+    for (index = 0; index < endWordIndex; ++index) {
         if ((this->words[index] & set.words[index]) != 0) {
             return true;
         }
-- 
2.43.0


From 4e8ed5d81d4b31fe17088ffea6b6f50778560ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 023/127] fix: BitSet assignment after toString no longer frees
 the text twice

---
 library/Java/Util/BitSet/BitSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/BitSet/BitSet.cpp b/library/Java/Util/BitSet/BitSet.cpp
index 6d203db..aa4721f 100755
--- a/library/Java/Util/BitSet/BitSet.cpp
+++ b/library/Java/Util/BitSet/BitSet.cpp
@@ -114,6 +114,7 @@ void BitSet::trimToSize() {
 void BitSet::cleanUp() {
     if (this->backupForToString != nullptr) {
         free(this->backupForToString);
+        this->backupForToString = nullptr;
     }
 }
 
-- 
2.43.0


From ac64343eeeb42d49c229bfb375203e1e91d60dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 024/127] fix: StringBuilder.indexOf builds its failure table
 from the pattern and shifts by it

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 3f793ab..7ece225 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -735,7 +735,7 @@ int StringBuilder::stringMatches(const String target, const String pattern, int
 	}
 	
 	// KMP algorithm.
-	int *nextTable = this->initializeNextTable(target);
+	int *nextTable = this->initializeNextTable(pattern);
 	if (nextTable == nullptr) {
 		return -1;
 	}
@@ -750,7 +750,7 @@ int StringBuilder::stringMatches(const String target, const String pattern, int
 			position = position + 1;
 		} else {
 			if (nextTable[ position ] > -1) {
-				startIndex = startIndex + position;
+				startIndex = startIndex + position - nextTable[ position ];
 				position = nextTable[ position ];
 			} else {
 				startIndex = startIndex + 1;
-- 
2.43.0


From 34f069989000f6aafcd9df9e8dad135f9ae8b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 025/127] fix: StringBuilder.lastIndexOf compares the pattern
 forwards and stays inside the text

---
 .../Java/Lang/StringBuilder/StringBuilder.cpp | 39 ++++++-------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 7ece225..0fd0f4d 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -766,47 +766,30 @@ int StringBuilder::stringMatches(const String target, const String pattern, int
 int StringBuilder::stringMatchesReverse(const String target, const String pattern, int startIndex) const {
 	int lengthOfPattern = pattern.length();
 	int lengthOfTarget = target.length();
-	
 	if (startIndex < 0) {
 		return -1;
 	}
 	
-	int rightIndex = lengthOfTarget - lengthOfPattern;
-	if (startIndex < rightIndex) {
-		startIndex = rightIndex;
-	}
-	
 	// Empty string always matches.
 	if (lengthOfPattern == 0) {
-		return startIndex;
+		return startIndex < lengthOfTarget ? startIndex : lengthOfTarget;
 	}
 	
-	// KMP algorithm.
-	int *nextTable = this->initializeNextTable(pattern);
-	if (nextTable == nullptr) {
-		return -1;
+	if (startIndex >= lengthOfTarget) {
+		startIndex = lengthOfTarget - 1;
 	}
 	
-	int position = 0;
-	while (startIndex - position >= 0) {
-		if (pattern[ lengthOfPattern - position - 1 ] == target[ startIndex - position ]) {
-			if (position == lengthOfPattern - 1) {
-				free(nextTable);
-				return startIndex - lengthOfPattern + 1;
-			}
+	// The last character of the occurrence is at startIndex or before it.
+	int firstIndex;
+	for (firstIndex = startIndex - lengthOfPattern + 1; firstIndex >= 0; firstIndex--) {
+		int position = 0;
+		while (position < lengthOfPattern && pattern[ position ] == target[ firstIndex + position ]) {
 			position = position + 1;
-		} else {
-			if (nextTable[ position ] > -1) {
-				startIndex = startIndex - position;
-				position = nextTable[ position ];
-			} else {
-				startIndex = startIndex - 1;
-				position = 0;
-			}
+		}
+		if (position == lengthOfPattern) {
+			return firstIndex;
 		}
 	}
-	
-	free(nextTable);
 	return -1;
 }
 
-- 
2.43.0


From 0a86e47706b895980ecc2080e11314997b72eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 026/127] fix: assigning a StringBuilder copies its characters
 instead of sharing the buffer

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 14 ++++++++++++++
 library/Java/Lang/StringBuilder/StringBuilder.hpp |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 0fd0f4d..482af3e 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -77,6 +77,20 @@ StringBuilder::~StringBuilder() {
 	free(original);
 }
 
+StringBuilder &StringBuilder::operator=(const StringBuilder &target) {
+	if (this != &target) {
+		free(this->original);
+		this->original = (string) calloc((size_t) target.currentCapacity, sizeof(char));
+		int index;
+		for (index = 0; index < target.currentLength; index++) {
+			this->original[ index ] = target.original[ index ];
+		}
+		this->currentLength = target.currentLength;
+		this->currentCapacity = target.currentCapacity;
+	}
+	return *this;
+}
+
 StringBuilder &StringBuilder::append(Boolean target) {
 	return this->append(target.toString());
 }
diff --git a/library/Java/Lang/StringBuilder/StringBuilder.hpp b/library/Java/Lang/StringBuilder/StringBuilder.hpp
index 3c6185d..509eb4c 100644
--- a/library/Java/Lang/StringBuilder/StringBuilder.hpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.hpp
@@ -102,6 +102,8 @@ namespace Java {
 						 * StringBuilder Destructor
 						 */
                         virtual ~StringBuilder();
+                        
+                        StringBuilder &operator=(const StringBuilder &target);
                 
                 public:
                         /**
-- 
2.43.0


From 2dd4d6a9e39222e5b61dfb3aaa63cc839324f35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 027/127] fix: StringBuilder.substring and searches see the
 characters after a null character

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index 482af3e..a726897 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -343,11 +343,11 @@ void StringBuilder::ensureCapacity(int minimumCapacity) {
 //}
 
 int StringBuilder::indexOf(const String target) const {
-	return this->stringMatches(this->toString(), target, 0);
+	return this->stringMatches(String(this->original, this->currentLength), target, 0);
 }
 
 int StringBuilder::indexOf(const String target, int fromIndex) const {
-	return this->stringMatches(this->toString(), target, fromIndex);
+	return this->stringMatches(String(this->original, this->currentLength), target, fromIndex);
 }
 
 StringBuilder &StringBuilder::insert(int offset, boolean target) {
@@ -538,11 +538,11 @@ StringBuilder &StringBuilder::insert(int offset, const String target) {
 }
 
 int StringBuilder::lastIndexOf(String target) const {
-	return this->stringMatchesReverse(this->toString(), target, this->currentLength);
+	return this->stringMatchesReverse(String(this->original, this->currentLength), target, this->currentLength);
 }
 
 int StringBuilder::lastIndexOf(String target, int fromIndex) const {
-	return this->stringMatchesReverse(this->toString(), target, fromIndex);
+	return this->stringMatchesReverse(String(this->original, this->currentLength), target, fromIndex);
 }
 
 int StringBuilder::length() const {
@@ -662,7 +662,7 @@ String StringBuilder::substring(int start, int end) const {
 		indexOfSubString = indexOfSubString + 1;
 	}
 	copyOfSubString[ indexOfSubString ] = '\0';
-	String result(copyOfSubString);
+	String result(copyOfSubString, end - start);
 	free(copyOfSubString);
 	return result;
 }
-- 
2.43.0


From b17fa0a6f8332580ccd764fde58d97e342eb2088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 028/127] fix: StringBuilder.insert of an array range does not
 overflow its bounds check

---
 library/Java/Lang/StringBuilder/StringBuilder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/StringBuilder/StringBuilder.cpp b/library/Java/Lang/StringBuilder/StringBuilder.cpp
index a726897..e3f35c7 100755
--- a/library/Java/Lang/StringBuilder/StringBuilder.cpp
+++ b/library/Java/Lang/StringBuilder/StringBuilder.cpp
@@ -394,10 +394,10 @@ StringBuilder &StringBuilder::insert(int index, const Array<char> &target, int o
 		throw StringIndexOutOfBoundsException(offset);
 	}
 	
-	int stopIndexOfTarget = offset + length;
-	if (offset < 0 || length < 0 || stopIndexOfTarget > target.length) {
+	if (offset < 0 || length < 0 || length > target.length - offset) {
 		throw StringIndexOutOfBoundsException(offset);
 	}
+	int stopIndexOfTarget = offset + length;
 	
 	int newLength = this->currentLength + length;
 	this->ensureCapacity(newLength);
@@ -422,10 +422,10 @@ StringBuilder &StringBuilder::insert(int index, const Array<Character> &target,
 		throw StringIndexOutOfBoundsException(offset);
 	}
 	
-	int stopIndexOfTarget = offset + length;
-	if (offset < 0 || length < 0 || stopIndexOfTarget > target.length) {
+	if (offset < 0 || length < 0 || length > target.length - offset) {
 		throw StringIndexOutOfBoundsException(offset);
 	}
+	int stopIndexOfTarget = offset + length;
 	
 	int newLength = this->currentLength + length;
 	this->ensureCapacity(newLength);
-- 
2.43.0


From c2e86f18a2894a07435b46b05dd10600f7f40c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 029/127] fix: StringBuffer keeps its text terminated and moves
 exactly the characters after an edit

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 42 +++++++++++--------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index db6cdf7..88bdd3a 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -39,13 +39,13 @@ StringBufferUnSafe::StringBufferUnSafe(int capacity) {
     }
 
     this->currentCapacity = capacity;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const String &originalString) {
     this->currentCapacity = originalString.length() + DEFAULT_CAPACITY;
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(originalString);
 }
@@ -57,7 +57,7 @@ StringBufferUnSafe::StringBufferUnSafe(const CharSequence &sequence) {
         this->currentCapacity = sequence.length() + DEFAULT_CAPACITY;
     }
 
-    this->original = (string) calloc((size_t) this->currentCapacity,
+    this->original = (string) calloc((size_t) this->currentCapacity + 1,
                                      sizeof(char));
     this->append(sequence);
 }
@@ -103,7 +103,7 @@ void StringBufferUnSafe::ensureCapacity(int minimumCapacity) {
         this->currentCapacity = newCapacity;
     } while (newCapacity < minimumCapacity);
 
-    int newSize = newCapacity * sizeof(char);
+    int newSize = (newCapacity + 1) * sizeof(char);
     this->original = (string) allocateMemory(this->original, (size_t) newSize);
 }
 
@@ -127,6 +127,7 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
     int memorySizeToMove = len * sizeof(char);
     memmove(appendPosition, startIndex, (size_t) memorySizeToMove);
     this->currentLength += len;
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
@@ -147,11 +148,12 @@ StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
     int memorySizeToInsert = len * sizeof(char);
     memmove(insertPosition, startIndex, (size_t) memorySizeToInsert);
     this->currentLength += len;
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
 StringBufferUnSafe::StringBufferUnSafe(const StringBufferUnSafe &other) {
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -203,7 +205,7 @@ StringBufferUnSafe &StringBufferUnSafe::append(char charValue) {
 
 StringBufferUnSafe &
 StringBufferUnSafe::append(const StringBufferUnSafe &stringBufferUnSafe) {
-    return this->append(stringBufferUnSafe.getValue());
+    return this->append(stringBufferUnSafe.StringBufferUnSafe::toString());
 }
 
 StringBufferUnSafe &StringBufferUnSafe::appendCodePoint(int codePoint) {
@@ -321,16 +323,17 @@ StringBufferUnSafe &StringBufferUnSafe::deletes(int start, int end) {
 
     if (end > this->currentLength) {
         fromPosition = this->original + this->currentLength;
-        memorySizeToMove = this->currentLength * sizeof(char);
+        memorySizeToMove = 0;
         this->currentLength = start;
     } else {
         fromPosition = this->original + end;
-        memorySizeToMove = (this->currentLength - start) * sizeof(char);
+        memorySizeToMove = (this->currentLength - end) * sizeof(char);
         this->currentLength -= (end - start);
     }
 
     string toPosition = this->original + start;
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
@@ -346,9 +349,10 @@ StringBufferUnSafe &StringBufferUnSafe::deleteCharAt(int index) {
     // move block of memory from index + 1 to index
     string fromPosition = this->original + index + 1;
     string toPosition = this->original + index;
-    int memorySizeToMove = (this->currentLength - index) * sizeof(char);
+    int memorySizeToMove = (this->currentLength - index - 1) * sizeof(char);
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
     this->currentLength--;
+    this->original[this->currentLength] = '\0';
     return *this;
 }
 
@@ -515,16 +519,18 @@ StringBufferUnSafe &StringBufferUnSafe::replace(int start, int end, const String
     int newLength =
             this->currentLength + stringToReplace.length() - end + start;
     this->ensureCapacity(newLength);
-    this->currentLength = newLength;
 
     string fromPosition = this->original + end;
     string toPosition = this->original + start + stringToReplace.length();
-    int memorySizeToMove = stringToReplace.length() * sizeof(char);
+    int memorySizeToMove = (this->currentLength - end) * sizeof(char);
     memmove(toPosition, fromPosition, (size_t) memorySizeToMove);
 
     string insertPosition = this->original + start;
+    int memorySizeToReplace = stringToReplace.length() * sizeof(char);
     memcpy(insertPosition, stringToReplace.toCharPointer(),
-           (size_t) memorySizeToMove);
+           (size_t) memorySizeToReplace);
+    this->currentLength = newLength;
+    this->original[this->currentLength] = '\0';
 
     return *this;
 }
@@ -628,20 +634,20 @@ String StringBufferUnSafe::subString(int start, int end) const {
                                           sizeof(char));
     int memorySizeToCopy = resultStringLength * sizeof(char);
     memcpy(resultString, this->original + start, (size_t) memorySizeToCopy);
-    String result = String(resultString);
+    String result = String(resultString, resultStringLength);
     free(resultString);
     return result;
 }
 
 String StringBufferUnSafe::toString() const {
-    return this->original;
+    return String(this->original, this->currentLength);
 }
 
 void StringBufferUnSafe::trimToSize() {
     if (this->currentCapacity <= this->currentLength) {
         return;
     }
-    int newSize = this->currentLength * sizeof(char);
+    int newSize = (this->currentLength + 1) * sizeof(char);
     this->original = (string) allocateMemory(this->original, (size_t) newSize);
     this->currentCapacity = this->currentLength;
 }
@@ -649,7 +655,7 @@ void StringBufferUnSafe::trimToSize() {
 StringBufferUnSafe &
 StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -679,7 +685,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 StringBuffer::StringBuffer(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
@@ -973,7 +979,7 @@ void StringBuffer::trimToSize() {
 StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity,
+    this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
     int index;
     for (index = 0; index < other.currentLength; index++) {
-- 
2.43.0


From 2fc2e37104bbb03bef5e24664793eaab45183a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 030/127] fix: StringBuffer searches exactly its own characters

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 26 +++++++------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 88bdd3a..1ba4be3 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -371,11 +371,11 @@ StringBufferUnSafe::~StringBufferUnSafe() {
 }*/
 
 int StringBufferUnSafe::indexOf(const String &stringToGetIndex) const {
-    return indexOf(stringToGetIndex.toCharPointer(), 0);
+    return indexOf(stringToGetIndex, 0);
 }
 
 int StringBufferUnSafe::indexOf(const String &stringToGetIndex, int fromIndex) const {
-    std::string originalString = this->original;
+    std::string originalString(this->original, (size_t) this->currentLength);
     if (fromIndex < 0) {
         return this->indexOf(stringToGetIndex);
     }
@@ -386,7 +386,7 @@ int StringBufferUnSafe::indexOf(const String &stringToGetIndex, int fromIndex) c
         return -1;
     }
     std::string stringFromIndex=originalString.substr(fromIndex);
-    std::size_t found = stringFromIndex.find(stringToGetIndex.toString().toCharPointer());
+    std::size_t found = stringFromIndex.find(stringToGetIndex.toSTLString());
     if (found != std::string::npos) {
         return (found + fromIndex);
     } else {
@@ -473,25 +473,17 @@ StringBufferUnSafe::insert(int destinationOffset, const CharSequence &sequence,
 }
 
 int StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex) const {
-    String originalString = this->original;
-    return originalString.lastIndexOf(stringToGetIndex);
+    return this->lastIndexOf(stringToGetIndex, this->currentLength);
 }
 
 int
 StringBufferUnSafe::lastIndexOf(const String &stringToGetIndex, int fromIndex) const {
-    String reversedString = StringBuilder(stringToGetIndex).reverse();
-    String reversedOriginalString = StringBuilder(this->original).reverse();
-
-    int substringIndex = this->length() - fromIndex - stringToGetIndex.length();
-    reversedOriginalString = reversedOriginalString.getStringFromIndex(substringIndex);
-    int result = reversedOriginalString.indexOf(reversedString);
-
-    // Calculate result with original
-    if (result == -1) {
-        return result;
+    if (fromIndex < 0) {
+        return -1;
     }
-    result = reversedOriginalString.length() - stringToGetIndex.length() - result;
-    return result;
+    std::string originalString(this->original, (size_t) this->currentLength);
+    std::size_t found = originalString.rfind(stringToGetIndex.toSTLString(), (size_t) fromIndex);
+    return found == std::string::npos ? -1 : (int) found;
 }
 
 int
-- 
2.43.0


From 7240e74387976b557a0e3bef033a9feedea585c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 031/127] fix: StringBuffer.subString accepts the end of the
 text as its start

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 1ba4be3..f858ef0 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -616,7 +616,7 @@ String StringBufferUnSafe::subString(int start, int end) const {
         throw StringIndexOutOfBoundsException("start and end must be positive");
     }
 
-    if (start >= this->currentLength || end > this->currentLength ||
+    if (start > this->currentLength || end > this->currentLength ||
         start > end) {
         throw StringIndexOutOfBoundsException();
     }
-- 
2.43.0


From 0f05f0cc76069e4f54a22c40006fa683eb206029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 032/127] fix: assigning a StringBuffer to itself keeps its
 text

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index f858ef0..6447b2c 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -646,6 +646,9 @@ void StringBufferUnSafe::trimToSize() {
 
 StringBufferUnSafe &
 StringBufferUnSafe::operator=(const StringBufferUnSafe &other) {
+    if (this == &other) {
+        return *this;
+    }
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
@@ -969,6 +972,9 @@ void StringBuffer::trimToSize() {
 }
 
 StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
+    if (this == &other) {
+        return *this;
+    }
     std::lock_guard<std::mutex> guard(this->mutex);
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
-- 
2.43.0


From b4d685b8ef2baab8b39a5d057fb8308f32a6796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 033/127] fix: StringBuffer append and insert of a range do not
 overflow their bounds check

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 6447b2c..b1d1381 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -117,7 +117,7 @@ int StringBufferUnSafe::length() const {
 
 StringBufferUnSafe &
 StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
-    if (offset < 0 || len < 0 || (offset + len) > stringToAppend.length()) {
+    if (offset < 0 || len < 0 || len > stringToAppend.length() - offset) {
         throw IndexOutOfBoundsException();
     }
 
@@ -135,7 +135,7 @@ StringBufferUnSafe &
 StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
                            int len) {
     if (index < 0 || index > length() || offset < 0
-        || len < 0 || (offset + len) > stringToInsert.length()) {
+        || len < 0 || len > stringToInsert.length() - offset) {
         throw StringIndexOutOfBoundsException();
     }
 
-- 
2.43.0


From 6229ba4d163a3fd0bc375835d2712e8a1692bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 034/127] fix: StringBuffer appends and inserts the null
 character like any other

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index b1d1381..15033e5 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -200,7 +200,7 @@ StringBufferUnSafe &StringBufferUnSafe::append(boolean boolValue) {
 }
 
 StringBufferUnSafe &StringBufferUnSafe::append(char charValue) {
-    return this->append(String::valueOf(charValue).toString());
+    return this->append(String(&charValue, 1));
 }
 
 StringBufferUnSafe &
@@ -427,7 +427,7 @@ StringBufferUnSafe::insert(int offset, string stringToInsert) {
 }
 
 StringBufferUnSafe &StringBufferUnSafe::insert(int offset, char charValue) {
-    String value = String::valueOf(charValue);
+    String value(&charValue, 1);
     return this->insert(offset, value.toString(), 0, value.length());
 }
 
-- 
2.43.0


From aa51c9c4a45b81732b6a3635843385f528b45ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:42 +0000
Subject: [PATCH 035/127] fix: StringBuffer.length, getValue and ensureCapacity
 hold the lock

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 15033e5..d0425c1 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -121,7 +121,7 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
         throw IndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    this->ensureCapacity(this->currentLength + len);
     string appendPosition = this->original + this->currentLength;
     string startIndex = stringToAppend.toCharPointer() + offset;
     int memorySizeToMove = len * sizeof(char);
@@ -134,12 +134,12 @@ StringBufferUnSafe::append(const String &stringToAppend, int offset, int len) {
 StringBufferUnSafe &
 StringBufferUnSafe::insert(int index, String stringToInsert, int offset,
                            int len) {
-    if (index < 0 || index > length() || offset < 0
+    if (index < 0 || index > this->currentLength || offset < 0
         || len < 0 || len > stringToInsert.length() - offset) {
         throw StringIndexOutOfBoundsException();
     }
 
-    this->ensureCapacity(this->length() + len);
+    this->ensureCapacity(this->currentLength + len);
     string insertPosition = this->original + index;
     string newTailStart = this->original + index + len;
     int memorySizeToMove = (this->currentLength - index) * sizeof(char);
@@ -800,10 +800,12 @@ StringBuffer &StringBuffer::deletes(int start, int end) {
 }
 
 void StringBuffer::ensureCapacity(int minimumCapacity) {
+    std::lock_guard<std::mutex> guard(this->mutex);
     StringBufferUnSafe::ensureCapacity(minimumCapacity);
 }
 
 String StringBuffer::getValue() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::getValue();
 }
 
@@ -820,6 +822,7 @@ StringBuffer &StringBuffer::deleteCharAt(int index) {
 }
 
 int StringBuffer::length() const {
+    std::lock_guard<std::mutex> guard(this->mutex);
     return StringBufferUnSafe::length();
 }
 
-- 
2.43.0


From 44cdae0baa2104f9f470b8af406c5053bd0e585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:42 +0000
Subject: [PATCH 036/127] fix: StringBuffer reads another sequence before
 locking itself, and inserts its text

---
 .../Java/Lang/StringBuffer/StringBuffer.cpp   | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index d0425c1..4a58bc9 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -715,8 +715,10 @@ StringBuffer &StringBuffer::append(boolean boolValue) {
 }
 
 StringBuffer &StringBuffer::append(const CharSequence &sequence) {
+    // read the other sequence before taking the lock: it may be a StringBuffer, even this one
+    String text = &sequence == nullptr ? String("null") : sequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(sequence);
+    StringBufferUnSafe::append(text);
     return *this;
 }
 
@@ -751,8 +753,12 @@ StringBuffer &StringBuffer::append(string stringToAppend, int offset, int len) {
 }
 
 StringBuffer &StringBuffer::append(const CharSequence &sequence, int start, int end) {
+    if (&sequence == nullptr) {
+        return this->append(sequence);
+    }
+    String text = sequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(sequence, start, end);
+    StringBufferUnSafe::append((const CharSequence &) text, start, end);
     return *this;
 }
 
@@ -763,8 +769,9 @@ StringBuffer &StringBuffer::appendCodePoint(int codePoint) {
 }
 
 StringBuffer &StringBuffer::append(const StringBuffer &stringBuffer) {
+    String text = stringBuffer.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::append(stringBuffer);
+    StringBufferUnSafe::append(text);
     return *this;
 }
 
@@ -882,8 +889,10 @@ StringBuffer &StringBuffer::insert(int offset, double doubleValue) {
 StringBuffer &
 StringBuffer::insert(int destinationOffset, const CharSequence &sequence, int start,
                      int end) {
+    String text = &sequence == nullptr ? String("null") : sequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::insert(destinationOffset, sequence, start, end);
+    StringBufferUnSafe::insert(destinationOffset, (const CharSequence &) text,
+                               &sequence == nullptr ? 0 : start, &sequence == nullptr ? 4 : end);
     return *this;
 }
 
@@ -900,8 +909,9 @@ StringBuffer &StringBuffer::insert(int offset, int intValue) {
 }
 
 StringBuffer &StringBuffer::insert(int offset, const CharSequence &charSequence) {
+    String text = &charSequence == nullptr ? String("null") : charSequence.toString();
     std::lock_guard<std::mutex> guard(this->mutex);
-    StringBufferUnSafe::insert(offset, &charSequence);
+    StringBufferUnSafe::insert(offset, (CharSequence *) &text);
     return *this;
 }
 
-- 
2.43.0


From 13ed88a0c414954acb488b3c1bdce6b0d13b8c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:42 +0000
Subject: [PATCH 037/127] fix: copying a StringBuffer locks the buffer that is
 read

---
 library/Java/Lang/StringBuffer/StringBuffer.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/library/Java/Lang/StringBuffer/StringBuffer.cpp b/library/Java/Lang/StringBuffer/StringBuffer.cpp
index 4a58bc9..8d2f599 100755
--- a/library/Java/Lang/StringBuffer/StringBuffer.cpp
+++ b/library/Java/Lang/StringBuffer/StringBuffer.cpp
@@ -678,7 +678,7 @@ StringBuffer::StringBuffer(const String &originalString) : StringBufferUnSafe(
 }
 
 StringBuffer::StringBuffer(const StringBuffer &other) {
-    std::lock_guard<std::mutex> guard(this->mutex);
+    std::lock_guard<std::mutex> guard(other.mutex);
     free(this->original);
     this->original = (string) calloc((size_t) other.currentCapacity + 1,
                                      sizeof(char));
@@ -988,15 +988,9 @@ StringBuffer &StringBuffer::operator=(const StringBuffer &other) {
     if (this == &other) {
         return *this;
     }
+    // never hold both locks: two buffers may be assigned to each other at the same time
+    StringBuffer copy(other);
     std::lock_guard<std::mutex> guard(this->mutex);
-    free(this->original);
-    this->original = (string) calloc((size_t) other.currentCapacity + 1,
-                                     sizeof(char));
-    int index;
-    for (index = 0; index < other.currentLength; index++) {
-        this->original[index] = other.original[index];
-    }
-    this->currentLength = other.currentLength;
-    this->currentCapacity = other.currentCapacity;
+    StringBufferUnSafe::operator=(copy);
     return *this;
-}
\ No newline at end of file
+}
-- 
2.43.0


From 39916f7b6f7048f1d9474e4ee81267efadd651a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 038/127] fix: Semaphore: take all permits or none under one
 lock, wake every waiter that can go on, wait for the whole timeout

---
 .../Util/Concurrent/Semaphore/Semaphore.cpp   | 73 ++++++-------------
 .../Util/Concurrent/Semaphore/Semaphore.hpp   |  1 -
 2 files changed, 22 insertions(+), 52 deletions(-)

diff --git a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
index f124ded..d61234b 100644
--- a/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
+++ b/library/Java/Util/Concurrent/Semaphore/Semaphore.cpp
@@ -70,11 +70,10 @@ void Concurrent::Semaphore::release() {
 }
 
 void Concurrent::Semaphore::release(int permits) {
-    std::unique_lock<std::mutex> locker(conditionMutexObject);
-    permitMutexObject.lock();
+    std::unique_lock<std::mutex> locker(permitMutexObject);
     permitCounter += permits;
-    permitMutexObject.unlock();
-    conditionObject.notify_one();
+    // Waiters may need different numbers of permits: let each of them check
+    conditionObject.notify_all();
 }
 
 boolean Concurrent::Semaphore::tryAcquire() {
@@ -86,55 +85,27 @@ boolean Concurrent::Semaphore::tryAcquire(int permits) {
 }
 
 boolean Concurrent::Semaphore::tryAcquire(int permits, long timeout) {
-    int currentPermits = 0;
-    if (timeout < 0) {
-        for (int i = 0; i < permits; ++i) {
-            permitMutexObject.lock();
-            currentPermits = permitCounter;
-            permitMutexObject.unlock();
-
-            if (currentPermits == 0) {
-                std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
-                conditionObject.wait(conditionLocker);
-            }
-
-            permitMutexObject.lock();
-            --permitCounter;
-            permitMutexObject.unlock();
-        }
-        return true;
-    } else {
-        {
-            std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
-            if (permits <= permitCounter) {
-                permitCounter -= permits;
-                return true;
-            }
-        }
+    // A waiting time too long to be represented is as good as unlimited
+    const long maxWaitTime = duration_cast<milliseconds>(hours(24 * 365 * 100)).count();
+    std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
+    auto const available = [this, permits]() {
+        return permits <= permitCounter;
+    };
 
-        long waitTime = timeout;
-        while (true) {
-            std::unique_lock<std::mutex> conditionLocker(conditionMutexObject);
-            const long startTime = duration_cast<milliseconds>(
-                    steady_clock::now().time_since_epoch()).count();
-            std::cv_status waitStatus = conditionObject.wait_for(
-                    conditionLocker, std::chrono::milliseconds(waitTime));
-            if (waitStatus == std::cv_status::timeout) {
-                return false;
-            }
-
-            const long elapsedTime = duration_cast<milliseconds>(
-                    steady_clock::now().time_since_epoch()).count() - startTime;
-            waitTime -= elapsedTime;
-
-            {
-                std::unique_lock<std::mutex> permitsLocker(permitMutexObject);
-                if (permits <= permitCounter) {
-                    permitCounter -= permits;
-                    return true;
-                }
-            }
+    if (timeout < 0) {
+        if (permits <= 0) {
+            return true;
         }
+        conditionObject.wait(permitsLocker, available);
+    } else if (timeout > maxWaitTime) {
+        conditionObject.wait(permitsLocker, available);
+    } else if (!conditionObject.wait_until(
+            permitsLocker, steady_clock::now() + milliseconds(timeout),
+            available)) {
+        return false;
     }
+
+    permitCounter -= permits;
+    return true;
 }
 
diff --git a/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp b/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp
index 6faba4c..bb73eea 100644
--- a/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp
+++ b/library/Java/Util/Concurrent/Semaphore/Semaphore.hpp
@@ -128,7 +128,6 @@ namespace Java {
 
             private:
                 std::mutex permitMutexObject;
-                std::mutex conditionMutexObject;
                 std::condition_variable conditionObject;
                 int permitCounter;
             };
-- 
2.43.0


From a7a0617981241334efeaa3ec893cee80d3c093ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:00 +0000
Subject: [PATCH 039/127] fix: Thread: run the task exactly once, let any
 number of threads join any number of times, be alive from start to end

---
 library/Java/Lang/Thread/Thread.cpp | 59 ++++++++++++++++++-----------
 library/Java/Lang/Thread/Thread.hpp | 10 ++++-
 2 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/library/Java/Lang/Thread/Thread.cpp b/library/Java/Lang/Thread/Thread.cpp
index a79a1e5..cf9efbe 100755
--- a/library/Java/Lang/Thread/Thread.cpp
+++ b/library/Java/Lang/Thread/Thread.cpp
@@ -50,44 +50,42 @@ Thread::Thread(std::function<void()> func) {
 Thread::~Thread() {
     if (threadObject.joinable())
         threadObject.join();
-    if (semaphoreObject.availablePermits() > 0)
-        semaphoreObject.release(semaphoreObject.availablePermits());
 }
 
 void Thread::run() {
-    // set thread id
-    this->tid = (unsigned long)pthread_self();
-
-    // set tls
-    if (currentThreadPtr == nullptr) {
-        currentThreadPtr = this;
-    }
-
-    mutexObject.lock();
-    alive = true;
-    mutexObject.unlock();
-
     if (this->func) {
         this->func();
     }
-    semaphoreObject.release(1);
+}
+
+void Thread::execute() {
+    // set tls
+    currentThreadPtr = this;
+
+    run();
 
-    mutexObject.lock();
+    std::unique_lock<std::mutex> locker(mutexObject);
     alive = false;
-    mutexObject.unlock();
+    finished = true;
+    // everyone waiting in join() can go on
+    conditionObject.notify_all();
 }
 
 void Thread::setName(String name) {
+    std::unique_lock<std::mutex> locker(mutexObject);
     this->name = name;
 }
 
 void Thread::init(Runnable *target, String name) {
     this->target = target;
     this->name = name;
-    this->func = std::bind(&Runnable::run, target);
+    if (target != nullptr) {
+        this->func = std::bind(&Runnable::run, target);
+    }
 }
 
 String Thread::getName() {
+    std::unique_lock<std::mutex> locker(mutexObject);
     return this->name;
 }
 
@@ -97,13 +95,19 @@ boolean Thread::isAlive() {
 }
 
 unsigned long Thread::getId() {
+    std::unique_lock<std::mutex> locker(mutexObject);
     return this->tid;
 }
 
 void Thread::start() {
-    if (this->func && !isAlive()) {
-        threadObject = std::move(std::thread(&Thread::run, this));
+    std::unique_lock<std::mutex> locker(mutexObject);
+    if (started) {
+        return;
     }
+    threadObject = std::thread(&Thread::execute, this);
+    tid = (unsigned long) threadObject.native_handle();
+    started = true;
+    alive = true;
 }
 
 void Thread::join() {
@@ -111,10 +115,19 @@ void Thread::join() {
 }
 
 void Thread::join(long millis) {
-    if (millis > 0) {
-        semaphoreObject.tryAcquire(1, millis);
+    auto const ended = [this]() {
+        return finished;
+    };
+    // A waiting time too long to be represented is as good as unlimited
+    const long maxWaitTime = chrono::duration_cast<chrono::milliseconds>(
+            chrono::hours(24 * 365 * 100)).count();
+
+    std::unique_lock<std::mutex> locker(mutexObject);
+    if (millis > 0 && millis <= maxWaitTime) {
+        conditionObject.wait_until(locker, chrono::steady_clock::now()
+                                           + chrono::milliseconds(millis), ended);
     } else {
-        semaphoreObject.acquire();
+        conditionObject.wait(locker, ended);
     }
 }
 
diff --git a/library/Java/Lang/Thread/Thread.hpp b/library/Java/Lang/Thread/Thread.hpp
index 5dc85b7..288ac3e 100755
--- a/library/Java/Lang/Thread/Thread.hpp
+++ b/library/Java/Lang/Thread/Thread.hpp
@@ -38,14 +38,16 @@ namespace Java {
 		namespace Lang {
             class Thread : public Object, public virtual Runnable {
                 private:
+                    boolean started = false;
                     boolean alive = false;
+                    boolean finished = false;
                     boolean detached = false;
                     String name;
                     unsigned long tid = 0;
                     Runnable *target = nullptr;
-                    Semaphore semaphoreObject;
                     std::thread threadObject;
                     std::mutex mutexObject;
+                    std::condition_variable conditionObject;
                     std::function<void()> func;
 
                  private:
@@ -59,6 +61,12 @@ namespace Java {
                      */
                     void init(Runnable *target, String name);
 
+                    /**
+                     * What the started thread does: calls run() and
+                     * announces its end.
+                     */
+                    void execute();
+
 				 public:
                     Thread();
                     Thread(Runnable* target);
-- 
2.43.0


From e1f7926348eec946a401ee921c1e444d68a347d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 040/127] fix: ConcurrentHashMap.get of an absent key returns
 the default value, not an uninitialised one

---
 .../Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp    | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index c6d99ec..621f6ad 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -336,13 +336,7 @@ namespace Java {
                  * 							or default if no mapping with key
                  */
                 V get(const K &key) const {
-                    try {
-                        var value = original.find(key);
-                        return value;
-                    } catch (std::out_of_range &exception) {
-                        V v;
-                        return v;
-                    }
+                    return getOrDefault(key, V());
                 }
 
                 /**
-- 
2.43.0


From 370c3d393a215eb6d1dc6baa7115582caf58bcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 041/127] fix: ConcurrentHashMap.putIfAbsent compiles, looks
 and stores in one step, and returns the previous value

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp          | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 621f6ad..e2b5b7c 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -395,12 +395,12 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V putIfAbsent(const K &key, const V &value) {
-                    try {
-                        value = original.find(key);
-                    } catch (std::out_of_range &e) {
-                        this->put(key, value);
-                    }
-                    return value;
+                    V result = V();
+                    original.uprase_fn(key, [&result](const V &current) {
+                        result = current;
+                        return false;
+                    }, value);
+                    return result;
                 }
 
                 /**
-- 
2.43.0


From 63509f342a0a935664cc84be8bb772503e4493fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 042/127] fix: ConcurrentHashMap.remove finds and erases in one
 step

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index e2b5b7c..846dbbb 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -414,14 +414,12 @@ namespace Java {
                  * 					previously associated null with key.)
                  */
                 V remove(const K &key) {
-                    V v;
-                    try {
-                        v = original.find(key);
-                        original.erase(key);
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
-                    return v;
+                    V result = V();
+                    original.erase_fn(key, [&result](const V &current) {
+                        result = current;
+                        return true;
+                    });
+                    return result;
                 }
 
                 /**
@@ -435,16 +433,12 @@ namespace Java {
                  * 			false 		if otherwise
                  */
                 boolean remove(const K &key, const V &value) {
-                    try {
-                        var v = original.find(key);
-                        if (v == value) {
-                            original.erase(key);
-                            return true;
-                        }
-                    } catch (std::out_of_range &e) {
-                        // Nothing to do
-                    }
-                    return false;
+                    boolean removed = false;
+                    original.erase_fn(key, [&value, &removed](const V &current) {
+                        removed = current == value;
+                        return removed;
+                    });
+                    return removed;
                 }
 
                 /**
-- 
2.43.0


From 7b9726e0835b7d1a15fbae6508f818a556470054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 043/127] fix: ConcurrentHashMap.replace compiles and compares
 and stores in one step

---
 .../ConcurrentHashMap/ConcurrentHashMap.hpp   | 28 +++++++++----------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
index 846dbbb..c8c7d8d 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/ConcurrentHashMap.hpp
@@ -455,13 +455,11 @@ namespace Java {
                  * 					if the implementation supports null values.)
                  */
                 V replace(const K &key, const V &value) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()) {
-                        return result;
-                    }
-                    result = iteratorToString->second;
-                    this->put(key, value);
+                    V result = V();
+                    original.update_fn(key, [&result, &value](V &current) {
+                        result = current;
+                        current = value;
+                    });
                     return result;
                 }
 
@@ -480,14 +478,14 @@ namespace Java {
                 boolean replace(const K &key,
                                 const V &oldValue,
                                 const V &newValue) {
-                    V result;
-                    auto const iteratorToString = original.find(key);
-                    if (iteratorToString == this->end()
-                        || iteratorToString->second != oldValue) {
-                        return false;
-                    }
-                    this->put(key, newValue);
-                    return true;
+                    boolean replaced = false;
+                    original.update_fn(key, [&oldValue, &newValue, &replaced](V &current) {
+                        replaced = current == oldValue;
+                        if (replaced) {
+                            current = newValue;
+                        }
+                    });
+                    return replaced;
                 }
 
                 /**
-- 
2.43.0


From cc444ce1240a8648abb1ed9a33ebb4408be3b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 044/127] fix: copying a ConcurrentHashMap that has been
 iterated does not read its deallocated old buckets

---
 .../ConcurrentHashMap/libcuckoo/bucket_container.hh           | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh
index ec82613..e4c53d9 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/bucket_container.hh
@@ -324,6 +324,10 @@ namespace libcuckoo {
                         const bucket_container &>::type src,
                 std::integral_constant<bool, B> move) {
             assert(dst_hp >= src.hashpower());
+            if (src.buckets_ == nullptr) {
+                // `src` was deallocated and holds nothing
+                return nullptr;
+            }
             bucket_container dst(dst_hp, get_allocator());
             // Move/copy all occupied slots of the source buckets
             for (size_t i = 0; i < src.size(); ++i) {
-- 
2.43.0


From fc8f1cb9f366c93fc91f3ecb602d4e5c717704e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 045/127] fix: ConcurrentHashMap.clear keeps the locks it takes
 until it is done

---
 .../Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
index 6b4b0db..c2e5d8e 100644
--- a/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
+++ b/library/Java/Util/Concurrent/ConcurrentHashMap/libcuckoo/cuckoohash_map.hh
@@ -678,7 +678,7 @@ namespace libcuckoo {
          * Removes all elements in the table, calling their destructors.
          */
         void clear() {
-            lock_all(normal_mode());
+            auto all_locks_manager = lock_all(normal_mode());
             cuckoo_clear();
         }
 
-- 
2.43.0


From a0e675c1e735a2ad731b05836cd58f3b219a2e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 046/127] fix: ConcurrentLinkedQueue.offer inserts its element

---
 .../Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index b2103dc..40f7be4 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -61,7 +61,7 @@ namespace Java {
                 }
 
                 boolean offer(const E &e) {
-                    return true;
+                    return add(e);
                 }
 
                 E peek() const {
-- 
2.43.0


From 181e5f14cb17c641240653b894169c588fae18ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 047/127] fix: ConcurrentLinkedQueue.clear removes the elements

---
 .../Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index 40f7be4..c0153b0 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -79,6 +79,9 @@ namespace Java {
                 }
 
                 void clear() {
+                    E e = E();
+                    while (original.try_dequeue(e)) {
+                    }
                 }
 
                 boolean contains(const E &e) {
-- 
2.43.0


From b9bc653fa72737515f40b1800e1d48a142fa7e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 048/127] fix: ConcurrentLinkedQueue.poll on an empty queue
 returns the default value, not an uninitialised one

---
 .../Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
index c0153b0..3854907 100644
--- a/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
+++ b/library/Java/Util/Concurrent/ConcurrentLinkedQueue/ConcurrentLinkedQueue.hpp
@@ -69,7 +69,7 @@ namespace Java {
                 }
 
                 E poll() {
-                    E e;
+                    E e = E();
                     original.try_dequeue(e);
                     return e;
                 }
-- 
2.43.0


From eb12427c6ae942a6992d55778688c4ebd784a9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 049/127] fix: String.charAt and getStringFromIndex refuse
 every index of an empty string

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index b6379f4..39a2379 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -155,7 +155,7 @@ String String::clone() {
 }
 
 char String::charAt(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= this->length()) {
 		throw StringIndexOutOfBoundsException("String index out of range");
 	}
 	return (this->original[index]);
@@ -201,7 +201,7 @@ Array<byte> String::getBytes() const {
 }
 
 String String::getStringFromIndex(int index) const {
-	if (index < 0 || index > this->original.size() - 1) {
+	if (index < 0 || index >= this->length()) {
 		throw StringIndexOutOfBoundsException(index);
 	}
 	return this->original.substr(index);
-- 
2.43.0


From 81ce2b622a60942fec795c4b16cdb3c6cef49dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 050/127] fix: String.indexOf finds the null character

---
 library/Java/Lang/String/String.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 39a2379..f174933 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -227,18 +227,7 @@ String String::fromCharArray(const Array<char> &charArray) {
 }
 
 int String::indexOf(int character) const {
-	string pointerHolder;
-	char target = (char) character;
-	if (target == '\0') {
-		pointerHolder = strdup("");
-	} else {
-		auto *result = (string) calloc(2, sizeof(char));
-		result[0] = target;
-		result[1] = '\0';
-		pointerHolder = result;
-	}
-	std::size_t found = this->original.find(pointerHolder);
-	free(pointerHolder);
+	std::size_t found = this->original.find((char) character);
 	if (found != std::string::npos) {
 		return (int) found;
 	}
-- 
2.43.0


From a24911f285d1d97cd33fac029f90725350fbc64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 051/127] fix: String.lastIndexOf(character, fromIndex) looks
 at fromIndex too

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index f174933..29691f9 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -298,12 +298,12 @@ int String::lastIndexOf(int character, int fromIndex) const {
 	if (fromIndex < 0) {
 		return -1;
 	}
-	if (fromIndex > this->original.size() - 1) {
+	if (fromIndex >= this->length()) {
 		return this->lastIndexOf(character);
 	}
 
 	int index = 0;
-	for (index = fromIndex - 1; index >= 0; index--) {
+	for (index = fromIndex; index >= 0; index--) {
 		if (this->charAt(index) == (char) character) {
 			return index;
 		}
-- 
2.43.0


From 5841519b5e6ccabf9b5eee3e946549801a7bd900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 052/127] fix: String comparisons and searches do not stop at
 the first null character

---
 library/Java/Lang/String/String.cpp | 14 +++++++++-----
 library/Java/Lang/String/String.hpp |  8 ++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 29691f9..7cf349a 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -162,11 +162,15 @@ char String::charAt(int index) const {
 }
 
 int String::compareTo(const String &anotherString) const {
-	return strcmp(this->original.c_str(), anotherString.original.c_str());
+	return this->original.compare(anotherString.original);
 }
 
 int String::compareToIgnoreCase(const String &anotherString) const {
-	return strcasecmp(this->original.c_str(), anotherString.original.c_str());
+	std::string lower = this->original;
+	std::string anotherLower = anotherString.original;
+	std::transform(lower.begin(), lower.end(), lower.begin(), ::tolower);
+	std::transform(anotherLower.begin(), anotherLower.end(), anotherLower.begin(), ::tolower);
+	return lower.compare(anotherLower);
 }
 
 String String::concat(const String &target) const {
@@ -174,7 +178,7 @@ String String::concat(const String &target) const {
 }
 
 boolean String::contains(const CharSequence &charSequence) const {
-	std::size_t found = this->original.find(charSequence.toString().toCharPointer());
+	std::size_t found = this->original.find(charSequence.toString().original);
 	if (found != std::string::npos) {
 		return true;
 	} else {
@@ -338,7 +342,7 @@ int String::lastIndexOf(const String &subString, int fromIndex) const {
 		return -1;
 	}
 	std::string subStringFromIndex = thisStringReversed.substr(indexToCreatSubString);
-	std::string reversedString = subString.toCharPointer();
+	std::string reversedString = subString.original;
 	std::reverse(reversedString.begin(), reversedString.end());
 	auto result = (int) subStringFromIndex.find(reversedString);
 	if (result == -1) {
@@ -554,7 +558,7 @@ String String::subString(int beginIndex, int endIndex) const {
 }
 
 boolean String::contentEquals(const CharSequence &charSequence) const {
-	return strcmp(this->original.c_str(), charSequence.toString().toCharPointer()) == 0;
+	return this->original == charSequence.toString().original;
 }
 
 String String::copyValueOf(const Array<char> &charArray) {
diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 2cae6e0..61dee63 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -1095,7 +1095,7 @@ namespace Java {
             * @return true if this String is smaller than target; false otherwise
             */
             inline boolean operator<(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) < 0;
+                return this->original < target.original;
             }
 
             /**
@@ -1105,7 +1105,7 @@ namespace Java {
              * @return true if this String is greater than target; false otherwise
              */
             inline boolean operator>(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) > 0;
+                return this->original > target.original;
             }
 
             /**
@@ -1115,7 +1115,7 @@ namespace Java {
             * @return true if this String is smaller than or equal to target; false otherwise
             */
             inline boolean operator<=(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) <= 0;
+                return this->original <= target.original;
             }
 
             /**
@@ -1125,7 +1125,7 @@ namespace Java {
              * @return true if this String is greater than or equal to target; false otherwise
              */
             inline boolean operator>=(const String &target) const {
-                return strcmp(this->original.c_str(), target.toCharPointer()) >= 0;
+                return this->original >= target.original;
             }
 
             /**
-- 
2.43.0


From da2bf230a606bdab93f4879ff5755139ba371096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 053/127] fix: String.replace of the empty string ends

---
 library/Java/Lang/String/String.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 7cf349a..969435e 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -643,6 +643,15 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 	std::string targetString = target.toString().original;
 	std::string replaceString = replacement.toString().original;
 	std::string result;
+
+	if (targetString.empty()) {
+		// The empty string occurs before every character and at the end
+		for (char character : this->original) {
+			result += replaceString;
+			result += character;
+		}
+		return result + replaceString;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 		for (; pre < pos; pre++) {
 			result += this->original[pre];
-- 
2.43.0


From 8da7bd48a6e6d970864510817926ff866cef8bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 054/127] fix: String.split by the empty string ends

---
 library/Java/Lang/String/String.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 969435e..c601483 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -379,6 +379,17 @@ Array<String> String::split(const String &regex) const {
 	size_t pre = 0;
 	std::string targetString = regex.original;
 	std::string result;
+
+	if (targetString.empty()) {
+		// The empty string separates all characters
+		for (char character : this->original) {
+			strings.push(std::string(1, character));
+		}
+		if (this->isEmpty()) {
+			strings.push(result);
+		}
+		return strings;
+	}
 	while ((pos = this->original.find(targetString, pos)) != std::string::npos) {
 
 		for (; pre < pos; pre++) {
-- 
2.43.0


From ef1a49dbdca58c429c7c03e0f017e25f85b944e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 055/127] fix: String.replaceFirst handles absent text and text
 at the end

---
 library/Java/Lang/String/String.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index c601483..4bd21c4 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -679,11 +679,12 @@ String String::replace(const CharSequence &target, const CharSequence &replaceme
 
 String String::replaceFirst(const String &regex, const String &replacement) const {
 	// TODO (anhnt) fix this later, temporary, need Pattern
-	int stringWithFirstRegexLength = this->indexOf(regex) + regex.length();
-	String stringWithFirstRegex = this->subString(0, stringWithFirstRegexLength);
-	String remainString = this->getStringFromIndex(stringWithFirstRegexLength);
-	stringWithFirstRegex = stringWithFirstRegex.replace(regex, replacement);
-	return stringWithFirstRegex + remainString;
+	std::size_t found = this->original.find(regex.original);
+	if (found == std::string::npos) {
+		return *this;
+	}
+	std::string result = this->original;
+	return result.replace(found, regex.original.size(), replacement.original);
 }
 
 Array<String> String::split(const String &regex, int limit) const {
-- 
2.43.0


From 037b4444227f8a661d58a49ee83ffb0b9d1d9e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:43 +0000
Subject: [PATCH 056/127] fix: String.hashCode is that of the current contents

---
 library/Java/Lang/String/String.cpp | 12 +++++-------
 library/Java/Lang/String/String.hpp |  1 -
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 4bd21c4..05c2e0c 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -589,14 +589,12 @@ boolean String::equalsIgnoreCase(const String &anotherString) const {
 }
 
 long String::hashCode() const {
-	int hashCode = this->hash;
-	if (hashCode == 0 && this->original.size() > 0) {
-		for (int i = 0; i < this->original.size(); i++) {
-			hashCode = 31 * hashCode + this->original[i];
-		}
-		this->hash = hashCode;
+	// The contents can change, so the result is not kept
+	unsigned int hashCode = 0;
+	for (char character : this->original) {
+		hashCode = 31 * hashCode + character;
 	}
-	return hashCode;
+	return (int) hashCode;
 }
 
 boolean String::regionMatches(int thisOffset,
diff --git a/library/Java/Lang/String/String.hpp b/library/Java/Lang/String/String.hpp
index 61dee63..69c8461 100644
--- a/library/Java/Lang/String/String.hpp
+++ b/library/Java/Lang/String/String.hpp
@@ -96,7 +96,6 @@ namespace Java {
 
         private:
             std::string original;
-            mutable int hash = 0;
 
         public:
             /**
-- 
2.43.0


From 9cf3c2be1c8e9dd49b32cdf4429c846a6a6d0473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 057/127] fix: String.regionMatches is false for regions that
 start outside either string

---
 library/Java/Lang/String/String.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 05c2e0c..3c3a8d1 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -604,8 +604,15 @@ boolean String::regionMatches(int thisOffset,
 
 boolean String::regionMatches(boolean ignoreCase, int thisOffset,
                               const String &otherString, int otherOffset, int len) const {
-	String thisString = this->subString(thisOffset, thisOffset + len);
-	var subString = otherString.subString(otherOffset, otherOffset + len);
+	if (thisOffset < 0 || thisOffset > this->length()
+		|| otherOffset < 0 || otherOffset > otherString.length()) {
+		return false;
+	}
+	if (len < 0) {
+		len = 0;
+	}
+	String thisString = this->original.substr(thisOffset, len);
+	String subString = otherString.original.substr(otherOffset, len);
 	if (ignoreCase) {
 		return thisString.compareToIgnoreCase(subString) == 0;
 	}
-- 
2.43.0


From a483331ce79821948fcda2392493bdb420240675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 058/127] fix: String.trim removes all whitespace, not only
 spaces

---
 library/Java/Lang/String/String.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index 3c3a8d1..d467955 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -473,11 +473,12 @@ String String::toUpperCase() const {
 }
 
 String String::trim() const {
-	size_t first = this->original.find_first_not_of(' ');
+	const char *whitespace = " \t\n\v\f\r";
+	size_t first = this->original.find_first_not_of(whitespace);
 	if (std::string::npos == first) {
 		return "";
 	}
-	size_t last = this->original.find_last_not_of(' ');
+	size_t last = this->original.find_last_not_of(whitespace);
 	return this->original.substr(first, (last - first + 1));
 }
 
-- 
2.43.0


From 6e3a6f96630501d0ce70c8e3776a8976ec7154e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 059/127] fix: String case conversion does not stop at the
 first null character

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index d467955..a34d6c2 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -36,7 +36,7 @@ std::wstring multiByteStringToWideString(const std::string &input) {
     setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToWstring;
-        return convertToWstring.from_bytes(input.c_str());
+        return convertToWstring.from_bytes(input);
     } catch (std::exception &exception) {
         std::wstring emptyString;
         return emptyString;
@@ -47,7 +47,7 @@ std::string wideStringToMultiByteString(const std::wstring &input) {
     setlocale(LC_CTYPE, "");
     try {
         std::wstring_convert<std::codecvt_utf8<wchar_t>> convertToString;
-        return convertToString.to_bytes(input.c_str());
+        return convertToString.to_bytes(input);
     } catch (std::exception &exception) {
         std::string emptyString;
         return emptyString;
-- 
2.43.0


From e9be2b2a345db35ae4fdb74bfb2bbad4aa4d0063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 060/127] fix: String.subString refuses an illegal range with
 the documented exception

---
 library/Java/Lang/String/String.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index a34d6c2..aa62b24 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -557,13 +557,14 @@ String String::subString(int beginIndex) const {
 }
 
 String String::subString(int beginIndex, int endIndex) const {
-	if (this->original.c_str() == nullptr) {
-		return "";
+	if (beginIndex < 0) {
+		throw StringIndexOutOfBoundsException(beginIndex);
 	}
-	int lengthTarget = this->length();
-	if (beginIndex > endIndex || beginIndex < 0 || beginIndex > lengthTarget || endIndex < 0 ||
-	    endIndex > lengthTarget) {
-		return "";
+	if (endIndex > this->length()) {
+		throw StringIndexOutOfBoundsException(endIndex);
+	}
+	if (beginIndex > endIndex) {
+		throw StringIndexOutOfBoundsException(endIndex - beginIndex);
 	}
 	std::string result = this->original.substr(beginIndex, endIndex - beginIndex);
 	return result;
-- 
2.43.0


From 5f1d1b2ca011df9c809d455252f16de7a403b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 061/127] fix: Base64 refuses malformed text with the
 documented IllegalArgumentException

---
 library/Java/Util/Base64/Base64.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index f6aa555..332b2b3 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -311,7 +311,7 @@ int Base64::Decoder::outLength(const Array<byte> &source,
 		if (this->isMime && fromBase64Table[ 0 ] == -1) {
 			return 0;
 		}
-		throw InterruptedException(
+		throw IllegalArgumentException(
 			"Input byte[] should at least have 2 bytes for based64 bytes");
 	}
 	if (this->isMime) {
@@ -376,7 +376,7 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 					// => Second '=' is missing.
 					// shiftTo == 6 && source[sourcePosition++] != '='
 					// => Byte after first '=' doesn't present for '='.
-					throw InterruptedException("Input byte array has wrong 4-byte ending unit");
+					throw IllegalArgumentException("Input byte array has wrong 4-byte ending unit");
 				}
 				break;
 			}
@@ -385,7 +385,7 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 			if (this->isMime) {
 				continue;
 			} else {
-				throw InterruptedException("Illegal base64 character");
+				throw IllegalArgumentException("Illegal base64 character");
 			}
 		}
 		groupBits |= ( currentByteDecoded << shiftTo );
@@ -406,7 +406,8 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 		destination[ destinationPosition++ ] = static_cast<byte>(groupBits >> 16);
 		destination[ destinationPosition++ ] = static_cast<byte>(groupBits >> 8);
 	} else if (shiftTo == 12) {
-		throw InterruptedException("Last unit does not have enough valid bits");
+		throw IllegalArgumentException(
+			"Last unit does not have enough valid bits");
 	}
 	
 	// Anything left is invalid, if is not MIME.
@@ -415,9 +416,8 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 		if (this->isMime && fromBase64Table[ source[ sourcePosition++ ]] < 0) {
 			continue;
 		}
-		throw InterruptedException(
-			"Input byte array has incorrect ending byte at " +
-			sourcePosition);
+		throw IllegalArgumentException(
+			"Input byte array has incorrect ending byte");
 	}
 	
 	return destinationPosition;
@@ -446,7 +446,8 @@ Base64::Encoder Base64::getMimeEncoder(int lineLength,
 		if (fromBase64Table[ currentByte & 0xff ] != -1) {
 			// If currentByte present for alphabet character.
 			// Because line separator must NOT contain alphabet character.
-			throw InterruptedException("Illegal base64 line separator character");
+			throw IllegalArgumentException(
+			"Illegal base64 line separator character");
 		}
 	}
 	if (lineLength < 0) {
-- 
2.43.0


From 8375f1cbc3f19713e85e208b2c534d8aaff24b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 062/127] fix: Base64 MIME decoder looks characters up in its
 table, not in the input

---
 library/Java/Util/Base64/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index 332b2b3..520831d 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -323,7 +323,7 @@ int Base64::Decoder::outLength(const Array<byte> &source,
 				length -= sourceEndPosition - sourcePosition + 1;
 				break;
 			}
-			currentByteDecoded = source[ currentByte ];
+			currentByteDecoded = fromBase64Table[ currentByte ];
 			if (currentByteDecoded == -1) {
 				++nonAlphabet;
 			}
-- 
2.43.0


From 3997e91060102d832b2a20d78d6502245cf29808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 063/127] fix: Base64 MIME decoder accepts bytes above 127
 after the padding

---
 library/Java/Util/Base64/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index 520831d..1d16d56 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -413,7 +413,7 @@ int Base64::Decoder::decoding(const Array<byte> &source, int offset, int end,
 	// Anything left is invalid, if is not MIME.
 	// If MIME, ignore all none-base64 character.
 	while (sourcePosition < sourceStopPosition) {
-		if (this->isMime && fromBase64Table[ source[ sourcePosition++ ]] < 0) {
+		if (this->isMime && fromBase64Table[ source[ sourcePosition++ ] & 0xff ] < 0) {
 			continue;
 		}
 		throw IllegalArgumentException(
-- 
2.43.0


From 142f6fdc876ae18f739716af0c21609b530863a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 064/127] fix: Base64 MIME encoder with a line length below 4
 does not insert separators

---
 library/Java/Util/Base64/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Base64/Base64.cpp b/library/Java/Util/Base64/Base64.cpp
index 1d16d56..a58b8ff 100755
--- a/library/Java/Util/Base64/Base64.cpp
+++ b/library/Java/Util/Base64/Base64.cpp
@@ -186,7 +186,7 @@ int Base64::Encoder::encoding(const Array<byte> &source, int offset, int end,
 			sourcePosition = chunksOfSourceWillBeEncodedPausePosition;
 			
 			// Add bytes of newline to current base64 line (append new line).
-			if (encodedLength == lineMax && sourcePosition < end) {
+			if (lineMax > 0 && encodedLength == lineMax && sourcePosition < end) {
 				for (byte byteOfNewLine : this->newLine) {
 					destination[ destinationPosition++ ] = byteOfNewLine;
 				}
-- 
2.43.0


From 01d9b5688327f5989ebe5c3506b789802cbda6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 065/127] fix: URLEncoder and URLDecoder do not stop at a null
 character

---
 library/Java/Net/URLDecoder/URLDecoder.cpp | 2 +-
 library/Java/Net/URLEncoder/URLEncoder.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Net/URLDecoder/URLDecoder.cpp b/library/Java/Net/URLDecoder/URLDecoder.cpp
index 798a240..d7c59ec 100755
--- a/library/Java/Net/URLDecoder/URLDecoder.cpp
+++ b/library/Java/Net/URLDecoder/URLDecoder.cpp
@@ -61,7 +61,7 @@ String URLDecoder::decode(const String &source, const String &encoding) {
     // TODO(truongchauhien): String class need to be refactoring.
     auto &referenceToEncoding = const_cast<String &>(encoding);
     if (referenceToEncoding.toUpperCase() == "UTF-8") {
-        String decodedString = urlDecode(source.toCharPointer());
+        String decodedString = urlDecode(source);
         return decodedString;
     }
     // TODO(truongchauhien): Need "java.nio.charset.Charset" class and "Array<byte> getBytes(const Charset &) method".
diff --git a/library/Java/Net/URLEncoder/URLEncoder.cpp b/library/Java/Net/URLEncoder/URLEncoder.cpp
index 879a19a..83661fd 100755
--- a/library/Java/Net/URLEncoder/URLEncoder.cpp
+++ b/library/Java/Net/URLEncoder/URLEncoder.cpp
@@ -42,7 +42,7 @@ inline String urlEncode(String target) {
     String result;
     int targetIndex = 0;
     while (targetIndex < target.getSize()) {
-        if (isalnum(target[targetIndex]) || target[targetIndex] == '-' || target[targetIndex] == '_' ||
+        if (isalnum((unsigned char) target[targetIndex]) || target[targetIndex] == '-' || target[targetIndex] == '_' ||
             target[targetIndex] == '.' || target[targetIndex] == '~') {
             result += target[targetIndex];
         } else if (target[targetIndex] == ' ') {
@@ -63,7 +63,7 @@ String URLEncoder::encode(const String &source, const String &encoding) {
     // TODO(truongchauhien): String class need to be refactoring.
     auto &referenceToEncoding = const_cast<String &>(encoding);
     if (referenceToEncoding.toUpperCase() == "UTF-8") {
-        String encodedString = urlEncode(source.toCharPointer());
+        String encodedString = urlEncode(source);
         return encodedString;
     }
     // TODO(truongchauhien): Need "java.nio.charset.Charset" class and "Array<byte> getBytes(const Charset &) method".
-- 
2.43.0


From 27faa6aa6aec8e28f8bed09ffec3a96374e51953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 066/127] fix: asking a MessageDigest for its digest does not
 change its state

---
 library/Java/Security/MessageDigest/MD5MessageDigest.cpp  | 3 ++-
 library/Java/Security/MessageDigest/SHA1MessageDigest.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
index 0ed6720..20d03c3 100644
--- a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
@@ -42,7 +42,8 @@ int MD5MessageDigest::engineDigest(byte *buffer, int len) {
     }
 
     if (!this->isFinished) {
-        md5_finish(&this->state, this->hash);
+        md5_state_t finalState = this->state;
+        md5_finish(&finalState, this->hash);
     }
 
     memcpy(buffer, this->hash, sizeof(this->hash));
diff --git a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
index 1c2f41c..c8fa6bf 100644
--- a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
@@ -20,7 +20,8 @@ int SHA1MessageDigest::engineDigest(byte *buffer, int len) {
     }
 
     if (!this->isFinished) {
-        SHA1_Final(this->hash, &this->state);
+        SHA_CTX finalState = this->state;
+        SHA1_Final(this->hash, &finalState);
     }
 
     memcpy(buffer, this->hash, sizeof(this->hash));
-- 
2.43.0


From 932862a0b5d10b8309fc3683fa3bd92638c02787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 067/127] fix: copies of a MessageDigest do not share (and
 delete twice) their state

---
 .../MessageDigest/MD5MessageDigest.cpp         |  4 ++++
 .../MessageDigest/MD5MessageDigest.hpp         |  2 ++
 .../Security/MessageDigest/MessageDigest.cpp   | 18 ++++++++++++++++++
 .../Security/MessageDigest/MessageDigest.hpp   |  6 ++++++
 .../MessageDigest/MessageDigestSpi.hpp         |  2 ++
 .../MessageDigest/SHA1MessageDigest.cpp        |  4 ++++
 .../MessageDigest/SHA1MessageDigest.hpp        |  2 ++
 7 files changed, 38 insertions(+)

diff --git a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
index 20d03c3..3ae4c64 100644
--- a/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MD5MessageDigest.cpp
@@ -63,3 +63,7 @@ void MD5MessageDigest::engineReset() {
 void MD5MessageDigest::engineUpdate(const byte *input, int len) {
     md5_append(&this->state, (const md5_byte_t*)input, len);
 }
+
+MessageDigestSpi *MD5MessageDigest::engineClone() const {
+    return new MD5MessageDigest(*this);
+}
diff --git a/library/Java/Security/MessageDigest/MD5MessageDigest.hpp b/library/Java/Security/MessageDigest/MD5MessageDigest.hpp
index 18ab9e7..007eae1 100644
--- a/library/Java/Security/MessageDigest/MD5MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/MD5MessageDigest.hpp
@@ -46,6 +46,8 @@ namespace Java {
 
             void engineUpdate(const byte *input, int len) override;
 
+            MessageDigestSpi *engineClone() const override;
+
         private:
             byte hash[16];
             md5_state_t state;
diff --git a/library/Java/Security/MessageDigest/MessageDigest.cpp b/library/Java/Security/MessageDigest/MessageDigest.cpp
index ef3f712..f669383 100644
--- a/library/Java/Security/MessageDigest/MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/MessageDigest.cpp
@@ -44,6 +44,24 @@ MessageDigest MessageDigest::getInstance(const String &algorithm) {
     throw NoSuchAlgorithmException(algorithm + (string) " not found");
 }
 
+MessageDigest::MessageDigest(const MessageDigest &target) {
+    this->spi = target.spi->engineClone();
+    this->algorithm = target.algorithm;
+}
+
+MessageDigest &MessageDigest::operator=(const MessageDigest &target) {
+    if (this != &target) {
+        delete this->spi;
+        this->spi = target.spi->engineClone();
+        this->algorithm = target.algorithm;
+    }
+    return *this;
+}
+
+MessageDigestSpi *MessageDigest::engineClone() const {
+    return new MessageDigest(*this);
+}
+
 MessageDigest::~MessageDigest() {
     if (spi) {
         delete spi;
diff --git a/library/Java/Security/MessageDigest/MessageDigest.hpp b/library/Java/Security/MessageDigest/MessageDigest.hpp
index 6d27ca5..f231e99 100644
--- a/library/Java/Security/MessageDigest/MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/MessageDigest.hpp
@@ -38,6 +38,10 @@ namespace Java {
         public:
             static MessageDigest getInstance(const String &algorithm);
 
+            MessageDigest(const MessageDigest &target);
+
+            MessageDigest &operator=(const MessageDigest &target);
+
             ~MessageDigest();
 
             String getAlgorithm();
@@ -64,6 +68,8 @@ namespace Java {
 
             void engineUpdate(const byte input[], int len) override;
 
+            MessageDigestSpi *engineClone() const override;
+
         };
     } // namespace Security
 } // namespace Java
diff --git a/library/Java/Security/MessageDigest/MessageDigestSpi.hpp b/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
index 635345f..3b65886 100644
--- a/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
+++ b/library/Java/Security/MessageDigest/MessageDigestSpi.hpp
@@ -36,6 +36,8 @@ namespace Java {
             virtual int engineDigest(byte buffer[], int len) = 0;
             virtual int engineGetDigestLength() = 0;
             virtual void engineReset() = 0;
+
+            virtual MessageDigestSpi *engineClone() const = 0;
             virtual void engineUpdate(const byte input[], int len)
             = 0;
         };
diff --git a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
index c8fa6bf..0ec5e89 100644
--- a/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
+++ b/library/Java/Security/MessageDigest/SHA1MessageDigest.cpp
@@ -41,3 +41,7 @@ void SHA1MessageDigest::engineReset() {
 void SHA1MessageDigest::engineUpdate(const byte *input, int len) {
     SHA1_Update(&this->state, input, len);
 }
+
+MessageDigestSpi *SHA1MessageDigest::engineClone() const {
+    return new SHA1MessageDigest(*this);
+}
diff --git a/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp b/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp
index df94783..fa0bfe2 100644
--- a/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp
+++ b/library/Java/Security/MessageDigest/SHA1MessageDigest.hpp
@@ -45,6 +45,8 @@ namespace Java {
 
             void engineUpdate(const byte *input, int len) override;
 
+            MessageDigestSpi *engineClone() const override;
+
         private:
             byte hash[20];
             SHA_CTX state;
-- 
2.43.0


From 303b45b525c8ba081d5129b8fa943bdd10e12d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 068/127] fix: Integer parsing and decoding refuse everything
 that is not a numeral; Character.digit knows every radix

---
 library/Java/Lang/Character/Character.cpp | 73 ++++-------------------
 library/Java/Lang/Integer/Integer.cpp     | 42 ++++++++++---
 2 files changed, 44 insertions(+), 71 deletions(-)

diff --git a/library/Java/Lang/Character/Character.cpp b/library/Java/Lang/Character/Character.cpp
index 7744625..4a682b4 100755
--- a/library/Java/Lang/Character/Character.cpp
+++ b/library/Java/Lang/Character/Character.cpp
@@ -515,69 +515,16 @@ int Character::toCodePoint(unicode high, unicode low) {
 }
 
 int Character::digit(int codePoint, int radix) {
-	if (radix == 10) {
-		switch (codePoint) {
-			case (int) '0':
-				return 0;
-			case (int) '1':
-				return 1;
-			case (int) '2':
-				return 2;
-			case (int) '3':
-				return 3;
-			case (int) '4':
-				return 4;
-			case (int) '5':
-				return 5;
-			case (int) '6':
-				return 6;
-			case (int) '7':
-				return 7;
-			case (int) '8':
-				return 8;
-			case (int) '9':
-				return 9;
-			default:
-				return -1;
-		}
+	int value = -1;
+	if (codePoint >= (int) '0' && codePoint <= (int) '9') {
+		value = codePoint - (int) '0';
+	} else if (codePoint >= (int) 'a' && codePoint <= (int) 'z') {
+		value = codePoint - (int) 'a' + 10;
+	} else if (codePoint >= (int) 'A' && codePoint <= (int) 'Z') {
+		value = codePoint - (int) 'A' + 10;
 	}
-	if (radix == 16) {
-		switch (codePoint) {
-			case (int) '0':
-				return 0;
-			case (int) '1':
-				return 1;
-			case (int) '2':
-				return 2;
-			case (int) '3':
-				return 3;
-			case (int) '4':
-				return 4;
-			case (int) '5':
-				return 5;
-			case (int) '6':
-				return 6;
-			case (int) '7':
-				return 7;
-			case (int) '8':
-				return 8;
-			case (int) '9':
-				return 9;
-			case (int) 'a':
-				return 10;
-			case (int) 'b':
-				return 11;
-			case (int) 'c':
-				return 12;
-			case (int) 'd':
-				return 13;
-			case (int) 'e':
-				return 14;
-			case (int) 'f':
-				return 15;
-			default:
-				return -1;
-		}
+	if (radix < MIN_RADIX || radix > MAX_RADIX || value >= radix) {
+		return -1;
 	}
-	return -1;
+	return value;
 }
diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 7d0f482..8154417 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -34,6 +34,19 @@
 
 using namespace Java::Lang;
 
+/**
+ * Check whether a text is a non empty sequence of digits of a radix
+ */
+static boolean isNumeral(const String &text, int radix) {
+	int index;
+	for (index = 0; index < text.length(); index++) {
+		if (Character::digit(text.charAt(index), radix) < 0) {
+			return false;
+		}
+	}
+	return text.length() > 0;
+}
+
 Integer::Integer() {
 	this->original = 0;
 	asprintf(&this->originalString, "%d", this->original);
@@ -246,21 +259,25 @@ Integer Integer::decode(String inputString) {
 	char sign = inputString.charAt(0);
 	if (sign == '-' && (( isdigit(sign)) == 0 )) {
 		isNegative = true;
+	}
+	if ((sign == '-' || sign == '+') && inputString.length() > 1) {
 		inputString = inputString.getStringFromIndex(1);
 	}
-	
-	if (inputString.charAt(0) == '0') {
+	if (inputString.charAt(0) == '0' && inputString.length() > 1) {
 		if (inputString.charAt(1) == 'x' || inputString.charAt(1) == 'X') {
 			base = 16;
+			inputString = inputString.length() > 2 ? inputString.getStringFromIndex(2) : String("");
 		} else {
 			base = 8;
 		}
 	}
-	
-	int result = parseInt(inputString, base);
+	if (!isNumeral(inputString, base)) {
+		throw NumberFormatException("Not a number");
+	}
 	if (isNegative) {
-		return static_cast<Integer>(-result);
+		inputString = String("-") + inputString;
 	}
+	int result = parseInt(inputString, base);
 	return static_cast<Integer>(result);
 }
 
@@ -369,9 +386,13 @@ int Integer::parseInt(String inputString, int radix) {
 	char sign = inputString.charAt(0);
 	if (sign == '-' && (( isdigit(sign)) == 0 )) {
 		isNegative = true;
+	}
+	if ((sign == '-' || sign == '+') && inputString.length() > 1) {
 		inputString = inputString.getStringFromIndex(1);
 	}
-	
+	if (!isNumeral(inputString, radix)) {
+		throw NumberFormatException("Not a number");
+	}
 	unsigned long unsignedResult = 0;
 	try {
 		unsignedResult = std::stoul(inputString.toCharPointer(), nullptr, radix);
@@ -383,8 +404,10 @@ int Integer::parseInt(String inputString, int radix) {
 		throw NumberFormatException("Integer out of range");
 	}
 	
+	if (unsignedResult > (unsigned long) Integer::MAX_VALUE + 1) {
+		throw NumberFormatException("Integer out of range");
+	}
 	long result = unsignedResult;
-	
 	if (isNegative) {
 		result = -unsignedResult;
 	}
@@ -421,10 +444,13 @@ int Integer::parseUnsignedInt(String inputString, int radix) {
 			throw NumberFormatException("Illegal leading minus sign");
 		}
 		
-		if (sign == '+') {
+		if (sign == '+' && inputString.length() > 1) {
 			inputString = inputString.getStringFromIndex(1);
 		}
 	}
+	if (!isNumeral(inputString, radix)) {
+		throw NumberFormatException("Not a number");
+	}
 	
 	unsigned long unsignedResult = 0;
 	
-- 
2.43.0


From 5ba79f64a96a186f7b11a63e74eebd0f208f1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 069/127] fix: Integer rotations by any distance and operations
 on the minimum value are well defined

---
 library/Java/Lang/Integer/Integer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 8154417..75a9966 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -242,7 +242,7 @@ int Integer::compareTo(const Integer &anotherInteger) const {
 }
 
 int Integer::compareUnsigned(int intA, int intB) {
-	return Integer::compare(intA + MIN_VALUE, intB + MIN_VALUE);
+	return Integer::compare(intA ^ MIN_VALUE, intB ^ MIN_VALUE);
 }
 
 Integer Integer::decode(String inputString) {
@@ -315,7 +315,7 @@ int Integer::highestOneBit(int inputInt) {
 }
 
 int Integer::lowestOneBit(int inputInt) {
-	return inputInt & -inputInt;
+	return inputInt & -(unsigned int) inputInt;
 }
 
 int Integer::max(int intA, int intB) {
@@ -509,12 +509,12 @@ int Integer::reverseBytes(int inputInt) {
 }
 
 int Integer::rotateLeft(int inputInt, int distance) {
-	inputInt = ( inputInt << distance ) | ((unsigned int) inputInt >> -distance );
+	inputInt = ( (unsigned int) inputInt << ( distance & 31 )) | ((unsigned int) inputInt >> ( -distance & 31 ));
 	return inputInt;
 }
 
 int Integer::rotateRight(int inputInt, int distance) {
-	return ((unsigned int) inputInt >> distance ) | ( inputInt << -distance );
+	return ((unsigned int) inputInt >> ( distance & 31 )) | ( (unsigned int) inputInt << ( -distance & 31 ));
 }
 
 String Integer::toString() const {
@@ -626,7 +626,7 @@ String Integer::toString(int inputInt) {
 
 String Integer::toString(int inputInt, int radix) {
 	if (inputInt < 0) {
-		inputInt = -inputInt;
+		inputInt = -(unsigned int) inputInt;
 		return String("-") + Integer::toUnsignedString(inputInt, radix);
 	}
 	
-- 
2.43.0


From a658941f3b2e901295b21fb0837c67b353d74e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 070/127] fix: Long decodes the minimum value, prints every
 value and formats negative octal numbers

---
 library/Java/Lang/Long/Long.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 5c328ee..bbb3e2c 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -164,16 +164,15 @@ Long Long::decode(String target) {
 		radix = 8;
 	}
 	
-	if (target.startsWith("-", index) || target.startsWith("+", index)) {
+	if (index >= target.length() || target.startsWith("-", index) || target.startsWith("+", index)) {
 		//FIXME: exception
 		return -1;
 	}
-	
-	result = Long::parseLong(target.getStringFromIndex(index), radix);
+	target = target.getStringFromIndex(index);
 	if (negative) {
-		result = -result.longValue();
+		target = String("-") + target;
 	}
-	
+	result = Long::parseLong(target, radix);
 	return result;
 }
 
@@ -370,6 +369,10 @@ long Long::parseLong(String s, int radix) {
 	long multmin;
 	int digit;
 	
+	if (radix < 2 || radix > 36) {
+		//FIXME: exception
+		return -1;
+	}
 	if (length > 0) {
 		char firstChar = s.charAt(0);
 		if (firstChar < '0') { // Possible leading "+" or "-"
@@ -539,7 +542,7 @@ String Long::toString() const {
  * @return String
  */
 String Long::toString(long i) {
-	static Long result = i;
+	Long result = i;
 	return result.toString();
 }
 
@@ -605,7 +608,7 @@ int Long::formatUnsignedLong(long val, int shift, Array<char> &buf, int offset,
 	
 	do {
 		buf[ offset + --charPos ] = digits[ ((int) val ) & mask ];
-		val >>= shift;
+		val = (unsigned long) val >> shift;
 	} while (val != 0 && charPos > 0);
 	
 	return charPos;
-- 
2.43.0


From 259a810f76a35169ab4628c0021f7378657c5455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 071/127] fix: a Long's string follows arithmetic assignment
 and division by zero raises ArithmeticException

---
 library/Java/Lang/Long/Long.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index bbb3e2c..a84662c 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -26,6 +26,7 @@
 
 #include "Long.hpp"
 #include "../Math/Math.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
 
 using namespace Java::Lang;
 
@@ -683,6 +684,9 @@ Long Long::operator-(const Long &target) const {
  * @return
  */
 Long Long::operator/(const Long &target) const {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	Long result = this->original / target.original;
 	return result;
 }
@@ -694,6 +698,9 @@ Long Long::operator/(const Long &target) const {
  * @return
  */
 Long Long::operator%(const Long &target) const {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	Long result = this->original % target.original;
 	return result;
 }
@@ -798,6 +805,8 @@ boolean Long::operator>=(const Long &target) const {
  */
 void Long::operator-=(const Long &target) {
 	this->original -= target.original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%ld", this->original);
 }
 
 /**
@@ -807,6 +816,8 @@ void Long::operator-=(const Long &target) {
  */
 void Long::operator+=(const Long &target) {
 	this->original += target.original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%ld", this->original);
 }
 
 /**
@@ -816,6 +827,8 @@ void Long::operator+=(const Long &target) {
  */
 void Long::operator*=(const Long &target) {
 	this->original *= target.original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%ld", this->original);
 }
 
 /**
@@ -824,7 +837,12 @@ void Long::operator*=(const Long &target) {
  * @param target
  */
 void Long::operator/=(const Long &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	this->original /= target.original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%ld", this->original);
 }
 
 /**
@@ -833,5 +851,10 @@ void Long::operator/=(const Long &target) {
  * @param target
  */
 void Long::operator%=(const Long &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	this->original %= target.original;
+	free(this->originalString);
+	asprintf(&this->originalString, "%ld", this->original);
 }
\ No newline at end of file
-- 
2.43.0


From 4812badfa5f967bd7e4eac4548f560ad7cfa6e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 072/127] fix: Long bit operations shift unsigned, and reverse
 and reverseBytes are implemented

---
 library/Java/Lang/Long/Long.cpp | 49 ++++++++++-----------------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index a84662c..0410692 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -80,7 +80,7 @@ Long::~Long() {
  * @return int
  */
 int Long::bitCount(long i) {
-	i = i - (( i >> 1 ) & 0x5555555555555555L );
+	i = (unsigned long) i - (( i >> 1 ) & 0x5555555555555555L );
 	i = ( i & 0x3333333333333333L ) + (( i >> 2 ) & 0x3333333333333333L );
 	i = ( i + ( i >> 4 )) & 0x0f0f0f0f0f0f0f0fL;
 	i = i + ( i >> 8 );
@@ -264,7 +264,7 @@ long Long::highestOneBit(long i) {
 	i |= ( i >> 8 );
 	i |= ( i >> 16 );
 	i |= ( i >> 32 );
-	return ( i - ( i >> 1 ));
+	return ( i - (long) ((unsigned long) i >> 1 ));
 }
 
 /**
@@ -293,7 +293,7 @@ long Long::longValue() const {
  * @return long
  */
 long Long::lowestOneBit(long i) {
-	return ( i & -i );
+	return ( i & -(unsigned long) i );
 }
 
 /**
@@ -426,41 +426,22 @@ long Long::parseLong(String s, int radix) {
  * @return long
  */
 long Long::reverse(long i) {
-	return i;
-	/*
-	i = ( i & 0x5555555555555555L ) << 1 | ( i >> 1 ) & 0x5555555555555555L;
-	i = ( i & 0x3333333333333333L ) << 2 | ( i >> 2 ) & 0x3333333333333333L;
-	i = ( i & 0x0f0f0f0f0f0f0f0fL ) << 4 | ( i >> 4 ) & 0x0f0f0f0f0f0f0f0fL;
-	i = ( i & 0x00ff00ff00ff00ffL ) << 8 | ( i >> 8 ) & 0x00ff00ff00ff00ffL;
-	i = ( i << 48 ) | (( i & 0xffff0000L ) << 16 ) |
-	    (( i >> 16 ) & 0xffff0000L ) | ( i >> 48 );
-	return i;
-	 */
+	unsigned long bits = (unsigned long) i;
+	bits = ( bits & 0x5555555555555555UL ) << 1 | (( bits >> 1 ) & 0x5555555555555555UL );
+	bits = ( bits & 0x3333333333333333UL ) << 2 | (( bits >> 2 ) & 0x3333333333333333UL );
+	bits = ( bits & 0x0f0f0f0f0f0f0f0fUL ) << 4 | (( bits >> 4 ) & 0x0f0f0f0f0f0f0f0fUL );
+	return Long::reverseBytes((long) bits);
 }
 
-/**
- * Returns the value obtained by reversing the order of the bytes
- * in the two's complement representation of the specified long value.
- *
- * @param long i
- * @return long
- */
 long Long::reverseBytes(long i) {
-	return i;
-	//i = ( i & 0x00ff00ff00ff00ffL ) << 8 | ( i >> 8 ) & 0x00ff00ff00ff00ffL;
-	//return (( i << 48 ) | (( i & 0xffff0000L ) << 16 ) | (( i >> 16 ) & 0xffff0000L ) | ( i >> 48 ));
+	unsigned long bits = (unsigned long) i;
+	bits = ( bits & 0x00ff00ff00ff00ffUL ) << 8 | (( bits >> 8 ) & 0x00ff00ff00ff00ffUL );
+	bits = ( bits & 0x0000ffff0000ffffUL ) << 16 | (( bits >> 16 ) & 0x0000ffff0000ffffUL );
+	return (long) ( bits << 32 | bits >> 32 );
 }
 
-/**
- * Returns the value obtained by rotating the two's complement binary representation
- * of the specified long value left by the specified number of bits.
- *
- * @param long i
- * @param int distance
- * @return long
- */
 long Long::rotateLeft(long i, int distance) {
-	return (( i << distance ) | ( i >> -distance ));
+	return (long) (((unsigned long) i << ( distance & 63 )) | ((unsigned long) i >> ( -distance & 63 )));
 }
 
 /**
@@ -472,7 +453,7 @@ long Long::rotateLeft(long i, int distance) {
  * @return long
  */
 long Long::rotateRight(long i, int distance) {
-	return (( i >> distance ) | ( i << -distance ));
+	return (long) (((unsigned long) i >> ( distance & 63 )) | ((unsigned long) i << ( -distance & 63 )));
 }
 
 /**
@@ -491,7 +472,7 @@ short Long::shortValue() const {
  * @return int
  */
 int Long::signum(long i) {
-	return (int) (( i >> 63 ) | ( -i >> 63 ));
+	return (int) (( i >> 63 ) | (long) ( -(unsigned long) i >> 63 ));
 }
 
 /**
-- 
2.43.0


From af5e6055d816c613c4964d494dd214b93aba07c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 073/127] fix: Short.parseShort refuses illegal text, and Short
 division by zero raises ArithmeticException

---
 library/Java/Lang/Short/Short.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/library/Java/Lang/Short/Short.cpp b/library/Java/Lang/Short/Short.cpp
index 5f330a3..535acbf 100755
--- a/library/Java/Lang/Short/Short.cpp
+++ b/library/Java/Lang/Short/Short.cpp
@@ -25,6 +25,9 @@
  */
 
 #include "Short.hpp"
+#include "../Integer/Integer.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
+#include "../ArithmeticException/ArithmeticException.hpp"
 
 using namespace Java::Lang;
 
@@ -71,9 +74,11 @@ Short::~Short() {
  * @return short
  */
 Short Short::parseShort(String target) {
-    short result;
-    sscanf(target.toCharPointer(), "%hi", &result);
-	return (Short) result;
+    int result = Integer::parseInt(target);
+    if (result < -32768 || result > 32767) {
+        throw NumberFormatException("out of short range");
+    }
+	return (Short) (short) result;
 }
 
 /**
@@ -194,6 +199,9 @@ Short Short::operator*(const Short &target) {
  * @return Short
  */
 Short Short::operator/(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	return (this->original / target.original);
 }
 
@@ -203,6 +211,9 @@ Short Short::operator/(const Short &target) {
  * @return Short
  */
 Short Short::operator%(const Short &target) {
+	if (target.original == 0) {
+		throw ArithmeticException("Divide by zero");
+	}
 	return (this->original % target.original);
 }
 
-- 
2.43.0


From 480db32bad94ec84cdee9bd3c80176f1ded6a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 074/127] fix: Bytes.valueOf(byte) keeps the cache it looks
 values up in

---
 library/Java/Lang/Bytes/Bytes.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/library/Java/Lang/Bytes/Bytes.cpp b/library/Java/Lang/Bytes/Bytes.cpp
index 719a98b..c02a48e 100755
--- a/library/Java/Lang/Bytes/Bytes.cpp
+++ b/library/Java/Lang/Bytes/Bytes.cpp
@@ -146,7 +146,6 @@ long Bytes::toUnsignedLong(byte byteValue) {
 Bytes Bytes::valueOf(byte byteValue) {
     auto byteInstance = ByteCache::getInstance();
     auto value = byteInstance->getByteAtIndex((int) byteValue);
-    delete byteInstance;
     return value;
 }
 
-- 
2.43.0


From 6d533e83862cc9aa3b438f987ff471bd0678ee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 075/127] fix: dividing the minimum Integer or Long by -1 wraps
 instead of trapping

---
 library/Java/Lang/Integer/Integer.cpp |  8 ++++----
 library/Java/Lang/Long/Long.cpp       | 10 ++++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/library/Java/Lang/Integer/Integer.cpp b/library/Java/Lang/Integer/Integer.cpp
index 75a9966..228904e 100755
--- a/library/Java/Lang/Integer/Integer.cpp
+++ b/library/Java/Lang/Integer/Integer.cpp
@@ -153,7 +153,7 @@ Integer Integer::operator/(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	return this->original / target.original;
+	return (int) ((long) this->original / target.original);
 }
 
 Integer Integer::operator*(const Integer &target) {
@@ -164,7 +164,7 @@ Integer Integer::operator%(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	return this->original % target.original;
+	return (int) ((long) this->original % target.original);
 }
 
 Integer &Integer::operator+=(const Integer &target) {
@@ -185,7 +185,7 @@ Integer &Integer::operator/=(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original /= target.original;
+	this->original = (int) ((long) this->original / target.original);
 	free(this->originalString);
 	asprintf(&this->originalString, "%d", this->original);
 	return *this;
@@ -202,7 +202,7 @@ Integer &Integer::operator%=(const Integer &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original %= target.original;
+	this->original = (int) ((long) this->original % target.original);
 	free(this->originalString);
 	asprintf(&this->originalString, "%d", this->original);
 	return *this;
diff --git a/library/Java/Lang/Long/Long.cpp b/library/Java/Lang/Long/Long.cpp
index 0410692..068b7de 100755
--- a/library/Java/Lang/Long/Long.cpp
+++ b/library/Java/Lang/Long/Long.cpp
@@ -668,6 +668,9 @@ Long Long::operator/(const Long &target) const {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
+	if (target.original == -1) {
+		return Long((long) -(unsigned long) this->original);
+	}
 	Long result = this->original / target.original;
 	return result;
 }
@@ -682,6 +685,9 @@ Long Long::operator%(const Long &target) const {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
+	if (target.original == -1) {
+		return Long(0L);
+	}
 	Long result = this->original % target.original;
 	return result;
 }
@@ -821,7 +827,7 @@ void Long::operator/=(const Long &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original /= target.original;
+	this->original = ( *this / target ).original;
 	free(this->originalString);
 	asprintf(&this->originalString, "%ld", this->original);
 }
@@ -835,7 +841,7 @@ void Long::operator%=(const Long &target) {
 	if (target.original == 0) {
 		throw ArithmeticException("Divide by zero");
 	}
-	this->original %= target.original;
+	this->original = ( *this % target ).original;
 	free(this->originalString);
 	asprintf(&this->originalString, "%ld", this->original);
 }
\ No newline at end of file
-- 
2.43.0


From e3cc7f53ccd34459a5f5f78e2294175fb8c3aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 076/127] fix: multiplyExact and toIntExact detect every
 overflow

---
 library/Java/Lang/Math/Math.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 3d488fd..7d3ab17 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -290,7 +290,7 @@ double Math::min(double valueA, double valueB) {
 
 int Math::multiplyExact(int valueA, int valueB) {
 	long result = (long) valueA * (long) valueB;
-	if (result -  (int) result > 0) {
+	if (result != (int) result) {
 		throw ArithmeticException("integer overflow");
 	}
 	return (int) result;
@@ -303,8 +303,8 @@ long Math::multiplyExact(long valueA, long valueB) {
 	}
 	
 	long result = valueA * valueB;
-	unsigned long absA = (unsigned) abs(valueA);
-	unsigned long absB = (unsigned) abs(valueB);
+	unsigned long absA = (unsigned long) abs(valueA);
+	unsigned long absB = (unsigned long) abs(valueB);
 	
 	if (((absA | absB) >> 31) != 0) {
 		if ((valueB != 0) && (result / valueB != valueA)) {
@@ -484,7 +484,7 @@ double Math::toDegrees(double angleRadian) {
 }
 
 int Math::toIntExact(long value) {
-	if (value - (int) value > 0) {
+	if (value != (int) value) {
 		throw ArithmeticException("integer overflow");
 	}
 	return (int) value;
-- 
2.43.0


From 42efee90640b614e7234e440c2a271a1a769a534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:21 +0000
Subject: [PATCH 077/127] fix: floorDiv and floorMod of the minimum value by -1
 do not trap

---
 library/Java/Lang/Math/Math.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 7d3ab17..57ec307 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -142,7 +142,7 @@ int Math::floorDiv(int dividend, int divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
-	int result = dividend / divisor;
+	int result = (int) ((long) dividend / divisor);
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
 		result--;
@@ -154,6 +154,9 @@ long Math::floorDiv(long dividend, long divisor) {
 	if (divisor == 0) {
 		throw ArithmeticException();
 	}
+	if (divisor == -1) {
+		return (long) -(unsigned long) dividend;
+	}
 	long result = dividend / divisor;
 	// if the signs are different and modulo not zero, round down
 	if ((dividend ^ divisor) < 0 && (result * divisor != dividend)) {
-- 
2.43.0


From 23831772b48de34e65702bc9b3634b187d00dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 078/127] fix: Random fills byte arrays, ends strings inside
 their buffer and copies its pending Gaussian number

---
 library/Java/Util/Random/Random.cpp | 6 ++++--
 library/Java/Util/Random/Random.hpp | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/Random/Random.cpp b/library/Java/Util/Random/Random.cpp
index f92defb..94de9bf 100755
--- a/library/Java/Util/Random/Random.cpp
+++ b/library/Java/Util/Random/Random.cpp
@@ -115,6 +115,8 @@ void Random::resetSeed(long seedVal) {
  */
 Random::Random(const Random &other) {
 	this->seed.store(other.seed.load());
+	this->haveNextGaussianNumber = other.haveNextGaussianNumber;
+	this->nextGaussianNumber = other.nextGaussianNumber;
 }
 
 /**
@@ -191,7 +193,7 @@ void Random::nextBytes(Array<byte> *bytes) {
 		int randomNumber = nextInt();
 		//TODO change to BYTE::SIZE
 		randomNumber >>= 8;
-		bytes->push((byte) randomNumber);
+		(*bytes)[ index ] = (byte) randomNumber;
 	}
 }
 
@@ -265,7 +267,7 @@ void Random::setSeed(long seed) {
  * @return
  */
 String Random::nextString(int length) {
-	char charArray[length];
+	char charArray[length + 1];
 	int charListLength = 62;
 	int index;
 	for (index = 0; index < length; ++index) {
diff --git a/library/Java/Util/Random/Random.hpp b/library/Java/Util/Random/Random.hpp
index 6a954d2..f38554e 100755
--- a/library/Java/Util/Random/Random.hpp
+++ b/library/Java/Util/Random/Random.hpp
@@ -44,7 +44,7 @@ namespace Java {
 						static const long MASK = (1L << 48 ) - 1;
 						static constexpr double DOUBLE_UNIT = 1.0 / ( 1L << 53 );
 						boolean haveNextGaussianNumber = false;
-						double nextGaussianNumber;
+						double nextGaussianNumber = 0;
 						//static long seedOffset;
 				
 				public:
-- 
2.43.0


From d3151e76c53780e95a6c392a83e6b3e939a2d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 079/127] fix: UUID.variant must take the leading bits as an
 unsigned value

---
 library/Java/Util/UUID/UUID.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index d904e20..ba003b7 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -215,7 +215,11 @@ String UUID::toString() const {
  * @return int
  */
 int UUID::variant() const {
-	return (int) (( this->leastSigBits >> ( 64 - ( this->leastSigBits >> 62 ))) & ( this->leastSigBits >> 63 ));
+	unsigned long bits = (unsigned long) this->leastSigBits;
+	if (this->leastSigBits >= 0) {
+		return 0;
+	}
+	return (int) ( bits >> ( 64 - ( bits >> 62 )));
 }
 
 /**
-- 
2.43.0


From 8dadf1ddc0f2b8403230a0280d4d0eceb6cc5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 080/127] fix: the default UUID must have an initialised
 timestamp

---
 library/Java/Util/UUID/UUID.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index ba003b7..99a2312 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -34,6 +34,7 @@
 UUID::UUID() {
 	this->mostSigBits = 0;
 	this->leastSigBits = 0;
+	this->timestamp = time(0);
 }
 
 /**
-- 
2.43.0


From 8ce7c1635500554cdc3f89404c810f8330e74472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 081/127] fix: UUID.fromString must refuse text that is not a
 UUID

---
 library/Java/Util/UUID/UUID.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index 99a2312..c3e2199 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -262,14 +262,28 @@ UUID UUID::timeUUID() {
 UUID UUID::fromString(String name) {
 	Array<String> components = name.split("-");
 	if (components.length != 5) {
-		//FIXME: an exception
-		return UUID();
+		throw IllegalArgumentException("Invalid UUID string: " + name);
 	}
-	
+	const int maxLength[] = { 8, 4, 4, 4, 12 };
+	int total = 4;
 	int index;
 	for (index = 0; index < 5; ++index) {
+		int length = components[ index ].length();
+		if (length == 0 || length > maxLength[ index ]) {
+			throw IllegalArgumentException("Invalid UUID string: " + name);
+		}
+		int position;
+		for (position = 0; position < length; ++position) {
+			if (!isxdigit((unsigned char) components[ index ].charAt(position))) {
+				throw IllegalArgumentException("Invalid UUID string: " + name);
+			}
+		}
+		total += length;
 		components[ index ] = "0x" + components[ index ];
 	}
+	if (total != name.length()) {
+		throw IllegalArgumentException("Invalid UUID string: " + name);
+	}
 	
 	long mostSigBits = Long::decode(components[ 0 ]).longValue();
 	mostSigBits <<= 16;
-- 
2.43.0


From b357a76861d7c92999cf4714bf56744b7eb57d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 082/127] fix: UUID.timeUUID must not share libuuid's clock
 state between threads unsynchronised

---
 library/Java/Util/UUID/UUID.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/library/Java/Util/UUID/UUID.cpp b/library/Java/Util/UUID/UUID.cpp
index c3e2199..179fd9e 100755
--- a/library/Java/Util/UUID/UUID.cpp
+++ b/library/Java/Util/UUID/UUID.cpp
@@ -25,6 +25,8 @@
  */
 
 #include "UUID.hpp"
+#include <ctype.h>
+#include <pthread.h>
 
 /**
  * Default constructor
@@ -246,8 +248,12 @@ UUID UUID::randomUUID() {
 }
 
 UUID UUID::timeUUID() {
+    // libuuid keeps its clock state in static variables
+    static pthread_mutex_t clockMutex = PTHREAD_MUTEX_INITIALIZER;
     uuid_t uuid;
+    pthread_mutex_lock(&clockMutex);
     uuid_generate_time_safe(uuid);
+    pthread_mutex_unlock(&clockMutex);
     char uuid_str[37];
     uuid_unparse_lower(uuid, uuid_str);
 	return UUID::fromString(uuid_str);
-- 
2.43.0


From ac7563dbb4003a510cd53b4ca8f07d4a0caec0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 083/127] fix: a time UUID's adjustment may not reach the ticks
 of the next microsecond

---
 library/Java/Util/UUID/libuuid/gen_uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/UUID/libuuid/gen_uuid.c b/library/Java/Util/UUID/libuuid/gen_uuid.c
index 3c519f2..dd6f631 100755
--- a/library/Java/Util/UUID/libuuid/gen_uuid.c
+++ b/library/Java/Util/UUID/libuuid/gen_uuid.c
@@ -255,7 +255,7 @@ static int get_node_id(unsigned char *node_id)
 }
 
 /* Assume that the gettimeofday() has microsecond granularity */
-#define MAX_ADJUSTMENT 10
+#define MAX_ADJUSTMENT 9
 
 /*
  * Get clock from global sequence clock counter.
-- 
2.43.0


From 8d86886c25c2a2d4327faef9ed81d4dd138bd58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 084/127] fix: every Date must have broken-down time of its own

---
 library/Java/Util/Date/Date.cpp | 42 +++++++++++++++++----------------
 library/Java/Util/Date/Date.hpp |  4 ++--
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 93b28b2..f598544 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -67,27 +67,27 @@ Date::~Date() {
 }
 
 void Date::setDate(int date) {
-    this->localTimer->tm_mday = date;
+    this->localTimer.tm_mday = date;
     this->updateDateStatus();
 }
 
 void Date::setHours(int hours) {
-    this->localTimer->tm_hour = hours;
+    this->localTimer.tm_hour = hours;
     this->updateDateStatus();
 }
 
 void Date::setMinutes(int minutes) {
-    this->localTimer->tm_min = minutes;
+    this->localTimer.tm_min = minutes;
     this->updateDateStatus();
 }
 
 void Date::setMonth(int month) {
-    this->localTimer->tm_mon = month;
+    this->localTimer.tm_mon = month;
     this->updateDateStatus();
 }
 
 void Date::setSeconds(int seconds) {
-    this->localTimer->tm_sec = seconds;
+    this->localTimer.tm_sec = seconds;
     this->updateDateStatus();
 }
 
@@ -97,36 +97,36 @@ void Date::setTime(long time) {
 
 void Date::setYear(int year) {
     // LocalTimer just keep year since 1900
-    this->localTimer->tm_year = year;
+    this->localTimer.tm_year = year;
     this->updateDateStatus();
 }
 
 int Date::getDate() const {
-    return this->localTimer->tm_mday;
+    return this->localTimer.tm_mday;
 }
 
 int Date::getDay() const {
-    return this->localTimer->tm_wday;
+    return this->localTimer.tm_wday;
 }
 
 int Date::getHours() const {
-    return this->localTimer->tm_hour;
+    return this->localTimer.tm_hour;
 }
 
 int Date::getMinutes() const {
-    return this->localTimer->tm_min;
+    return this->localTimer.tm_min;
 }
 
 int Date::getMonth() const {
-    return this->localTimer->tm_mon;
+    return this->localTimer.tm_mon;
 }
 
 int Date::getSeconds() const {
-    return this->localTimer->tm_sec;
+    return this->localTimer.tm_sec;
 }
 
 int Date::getYear() const {
-    return this->localTimer->tm_year;
+    return this->localTimer.tm_year;
 }
 
 long Date::getTime() const {
@@ -134,7 +134,7 @@ long Date::getTime() const {
 }
 
 int Date::getTimezoneOffset() const {
-    return (int) - (this->localTimer->tm_gmtoff / 60);
+    return (int) - (this->localTimer.tm_gmtoff / 60);
 }
 
 boolean Date::after(Date specifiedDate) const {
@@ -175,7 +175,7 @@ Date Date::clone() {
 
 String Date::toLocaleString() const {
     string pattern = (string) "%b %d, %Y %I:%M:%S %p";
-    return this->timeToString(pattern, this->localTimer);
+    return this->timeToString(pattern, &this->localTimer);
 }
 
 String Date::toGMTString() const {
@@ -487,7 +487,7 @@ String Date::getSequenceChar(const String &inputString, int &index) {
 
 void Date::updateDateStatus() {
     // Update changes
-    this->timer = mktime(this->localTimer);
+    this->timer = mktime(&this->localTimer);
 
     String pattern;
 
@@ -508,7 +508,7 @@ void Date::updateDateStatus() {
 #endif
 
     pattern = (string) "%a %b %d %T %Z %Y";
-    String convertResult = this->timeToString(pattern.toString(), this->localTimer);
+    String convertResult = this->timeToString(pattern.toString(), &this->localTimer);
     this->backUp = strdup(convertResult.toCharPointer());
 }
 
@@ -524,17 +524,19 @@ void Date::initializeDate(int year, int month, int date,
     localTimer.tm_sec = second;
 
     this->timer = mktime(&localTimer);
-    this->localTimer = localtime(&this->timer);
+    tzset();
+    localtime_r(&this->timer, &this->localTimer);
     this->updateDateStatus();
 }
 
 void Date::initializeDate(long timestamp) {
     time_t ts = timestamp;
-    this->localTimer = localtime(&ts);
+    tzset();
+    localtime_r(&ts, &this->localTimer);
     this->updateDateStatus();
 }
 
-String Date::timeToString(String pattern, tm *timeManagement) const {
+String Date::timeToString(String pattern, const tm *timeManagement) const {
     size_t size = 100;
 
     string holdResult = static_cast<string> (calloc(size, sizeof(char)));
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index d79abbe..7ef8e3d 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -41,7 +41,7 @@ namespace Java {
 				{
 				private:
 						long timer;
-						struct tm *localTimer;
+						struct tm localTimer;
 						string backUp = nullptr;
 				private:
 						/**
@@ -81,7 +81,7 @@ namespace Java {
 						 * @param timeManagement
 						 * @return String
 						 */
-						String timeToString(String pattern, tm *timeManagement) const;
+						String timeToString(String pattern, const tm *timeManagement) const;
 						
 						/**
 						 * Get the UTC time
-- 
2.43.0


From 4206b9bc6f7494add929763e202f74e55d851bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 085/127] fix: Date must let the fields decide whether daylight
 saving time is in effect

---
 library/Java/Util/Date/Date.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index f598544..75ec519 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -412,6 +412,7 @@ long Date::parse(String inputString) {
     localTimer.tm_hour = hour;
     localTimer.tm_min = minute;
     localTimer.tm_sec = second;
+    localTimer.tm_isdst = -1;
 
     long result = mktime(&localTimer);
 
@@ -486,7 +487,8 @@ String Date::getSequenceChar(const String &inputString, int &index) {
 }
 
 void Date::updateDateStatus() {
-    // Update changes
+    // Update changes; whether daylight saving time is in effect depends on the new fields
+    this->localTimer.tm_isdst = -1;
     this->timer = mktime(&this->localTimer);
 
     String pattern;
@@ -523,6 +525,7 @@ void Date::initializeDate(int year, int month, int date,
     localTimer.tm_min = minute;
     localTimer.tm_sec = second;
 
+    localTimer.tm_isdst = -1;
     this->timer = mktime(&localTimer);
     tzset();
     localtime_r(&this->timer, &this->localTimer);
-- 
2.43.0


From 2bc2c00a811a273dcd91e2e462eb768e7807c0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 086/127] fix: a Date made from an instant must keep it in an
 hour that daylight saving time repeats

---
 library/Java/Util/Date/Date.cpp | 11 +++++++----
 library/Java/Util/Date/Date.hpp |  2 ++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 75ec519..f5be53e 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -490,7 +490,10 @@ void Date::updateDateStatus() {
     // Update changes; whether daylight saving time is in effect depends on the new fields
     this->localTimer.tm_isdst = -1;
     this->timer = mktime(&this->localTimer);
+    this->updateText();
+}
 
+void Date::updateText() {
     String pattern;
 
     if (this->backUp != nullptr) {
@@ -529,14 +532,14 @@ void Date::initializeDate(int year, int month, int date,
     this->timer = mktime(&localTimer);
     tzset();
     localtime_r(&this->timer, &this->localTimer);
-    this->updateDateStatus();
+    this->updateText();
 }
 
 void Date::initializeDate(long timestamp) {
-    time_t ts = timestamp;
+    this->timer = timestamp;
     tzset();
-    localtime_r(&ts, &this->localTimer);
-    this->updateDateStatus();
+    localtime_r(&this->timer, &this->localTimer);
+    this->updateText();
 }
 
 String Date::timeToString(String pattern, const tm *timeManagement) const {
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index 7ef8e3d..1963dfd 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -48,6 +48,8 @@ namespace Java {
 						 * Update Date status
 						 */
 						void updateDateStatus();
+
+						void updateText();
 						
 						/**
 						 * Allocates a Date object and initializes it so that
-- 
2.43.0


From ee6b670a80813f86c65a3ff226f639b332cfac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 087/127] fix: Date must round instants before 1970 down to the
 second

---
 library/Java/Util/Date/Date.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index f5be53e..051f34c 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -51,8 +51,7 @@ Date::Date(int year, int month, int date, int hour, int minute, int second) {
 }
 
 Date::Date(long millisec) {
-    long timer = millisec / 1000;
-    this->initializeDate(timer);
+    this->initializeDate(Math::floorDiv(millisec, 1000L));
 }
 
 Date::Date(String inputString) {
@@ -92,7 +91,7 @@ void Date::setSeconds(int seconds) {
 }
 
 void Date::setTime(long time) {
-    this->initializeDate(time / 1000);
+    this->initializeDate(Math::floorDiv(time, 1000L));
 }
 
 void Date::setYear(int year) {
-- 
2.43.0


From d109ef276d8e39239497c45dce17102977185cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 088/127] fix: Date.toGMTString must not depend on the local
 zone

---
 library/Java/Util/Date/Date.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 051f34c..ff03952 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -180,10 +180,9 @@ String Date::toLocaleString() const {
 String Date::toGMTString() const {
     string pattern = (string) "%d %b %Y %T GMT";
 
-    long utcTime = getUTCTime(this->timer);
-    tm *utcTimer = localtime(&utcTime);
-
-    return this->timeToString(pattern, utcTimer);
+    tm utcTimer = {0};
+    gmtime_r(&this->timer, &utcTimer);
+    return this->timeToString(pattern, &utcTimer);
 }
 
 int Date::hashCode() const {
-- 
2.43.0


From 7ed803054e42903eee20189e26e0520feb716674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 089/127] fix: Date.UTC must take its arguments as UTC in every
 zone

---
 library/Java/Util/Date/Date.cpp | 16 ++++++++--------
 library/Java/Util/Date/Date.hpp |  2 --
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index ff03952..b300273 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -163,8 +163,14 @@ String Date::toString() const{
 }
 
 long Date::UTC(int year, int month, int date, int hour, int minute, int second) {
-    Date tempDate = Date(year, month, date, hour, minute, second);
-    return Date::getUTCTime(tempDate.getTime());
+    tm utcTimer = {0};
+    utcTimer.tm_year = year;
+    utcTimer.tm_mon = month;
+    utcTimer.tm_mday = date;
+    utcTimer.tm_hour = hour;
+    utcTimer.tm_min = minute;
+    utcTimer.tm_sec = second;
+    return (long) timegm(&utcTimer) * 1000;
 }
 
 Date Date::clone() {
@@ -551,12 +557,6 @@ String Date::timeToString(String pattern, const tm *timeManagement) const {
     return result;
 }
 
-long Date::getUTCTime(long timer) {
-    tm tempTimer = {0};
-    tm *utcTimer = gmtime_r(&timer, &tempTimer);
-    return mktime(utcTimer);
-}
-
 boolean Date::equals(Date obj) const {
     return this->getTime() == obj.getTime();
 }
diff --git a/library/Java/Util/Date/Date.hpp b/library/Java/Util/Date/Date.hpp
index 1963dfd..6e83a65 100755
--- a/library/Java/Util/Date/Date.hpp
+++ b/library/Java/Util/Date/Date.hpp
@@ -91,8 +91,6 @@ namespace Java {
 						 * @param timer
 						 * @return long
 						 */
-						static long getUTCTime(long timer);
-						
 						/**
 						 * Get current number from processing String
 						 * Sub method of Date::parse(String inputString)
-- 
2.43.0


From 347c91b62d8e27e0583fa2fdae76fe3db40212e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 090/127] fix: Date.parse must not apply today's local offset
 to a text that names its zone

---
 library/Java/Util/Date/Date.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index b300273..19861ee 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -418,15 +418,12 @@ long Date::parse(String inputString) {
     localTimer.tm_sec = second;
     localTimer.tm_isdst = -1;
 
-    long result = mktime(&localTimer);
-
     // Add timeZoneOffset to result
     if (timeZoneOffset == -1) {
-        return result * 1000;
+        return (long) mktime(&localTimer) * 1000;
     }
 
-    long offsetFromUTC = Date::getOffsetFromUTC();
-    result = (result + (timeZoneOffset * 60) - offsetFromUTC) ;
+    long result = timegm(&localTimer) + timeZoneOffset * 60;
     return result * 1000;
 }
 
-- 
2.43.0


From afa180ddac8d1d1ed2d26927241267ef15be6d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 091/127] fix: equal Dates must have equal hash codes

---
 library/Java/Util/Date/Date.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index 19861ee..ec1718a 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -192,8 +192,8 @@ String Date::toGMTString() const {
 }
 
 int Date::hashCode() const {
-    // TODO - Not implement yet
-    return Object::hashCode();
+    long millis = this->getTime();
+    return (int) (millis ^ (millis >> 32));
 }
 
 String Date::removeBracket(String inputString) {
-- 
2.43.0


From a1b7941d6db5c3053c4412dd7196db27ba382d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 092/127] fix: MediaType.isCompatible must be symmetric and
 respect suffix wildcards

---
 library/Javax/Ws/Rs/Core/MediaType.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/library/Javax/Ws/Rs/Core/MediaType.cpp b/library/Javax/Ws/Rs/Core/MediaType.cpp
index 43748a5..ef84389 100644
--- a/library/Javax/Ws/Rs/Core/MediaType.cpp
+++ b/library/Javax/Ws/Rs/Core/MediaType.cpp
@@ -113,15 +113,19 @@ const String &MediaType::getType() const {
 }
 
 boolean MediaType::isCompatible(MediaType other) {
-    if (!this->isWildcardType() && !other.isWildcardType() && !this->type.equals(other.getType())) {
+    if (this->isWildcardType() || other.isWildcardType()) {
+        return true;
+    }
+
+    if (!this->type.equals(other.getType())) {
         return false;
     }
 
-    if (this->isWildcardType() || other.isWildcardSubtype()) {
+    if (this->subtype.equals(other.getSubtype())) {
         return true;
     }
 
-    if (this->type.equals(other.getType()) && this->subtype.equals(other.getSubtype())) {
+    if (this->subtype.equals(MEDIA_TYPE_WILDCARD) || other.subtype.equals(MEDIA_TYPE_WILDCARD)) {
         return true;
     }
 
@@ -129,9 +133,6 @@ boolean MediaType::isCompatible(MediaType other) {
     if (this->isWildcardSubtype() || other.isWildcardSubtype()) {
         int thisPlusIndex = this->subtype.indexOf('+');
         int otherPlusIndex = other.getSubtype().indexOf('+');
-        if (thisPlusIndex == CHAR_NOT_FOUND && otherPlusIndex == CHAR_NOT_FOUND) {
-            return true;
-        }
 
         if (thisPlusIndex != CHAR_NOT_FOUND && otherPlusIndex != CHAR_NOT_FOUND) {
             String subtypeBeforePlus = this->subtype.subString(0, thisPlusIndex);
-- 
2.43.0


From 81c44d3b9cef280c397c769bff71323ab1d97b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 093/127] fix: define the MediaType constants that the class
 declares

---
 library/Javax/Ws/Rs/Core/MediaType.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/library/Javax/Ws/Rs/Core/MediaType.cpp b/library/Javax/Ws/Rs/Core/MediaType.cpp
index ef84389..1c8adc8 100644
--- a/library/Javax/Ws/Rs/Core/MediaType.cpp
+++ b/library/Javax/Ws/Rs/Core/MediaType.cpp
@@ -46,18 +46,18 @@ const String MediaType::TEXT_PLAIN                    = "text/plain";
 const String MediaType::TEXT_XML                      = "text/xml";
 const String MediaType::WILDCARD                      = "*/*";
 
-const MediaType APPLICATION_ATOM_XML_TYPE             = MediaType("application","atom+xml");
-const MediaType APPLICATION_FORM_URLENCODED_TYPE      = MediaType("application","x-www-form-urlencoded");
-const MediaType APPLICATION_JSON_TYPE                 = MediaType("application","json");
-const MediaType APPLICATION_OCTET_STREAM_TYPE         = MediaType("application","octet-stream");
-const MediaType APPLICATION_SVG_XML_TYPE              = MediaType("application","svg+xml");
-const MediaType APPLICATION_XHTML_XML_TYPE            = MediaType("application","xhtml+xml");
-const MediaType APPLICATION_XML_TYPE                  = MediaType("application","xml");
-const MediaType MULTIPART_FORM_DATA_TYPE              = MediaType("multipart","form-data");
-const MediaType TEXT_HTML_TYPE                        = MediaType("text","html");
-const MediaType TEXT_PLAIN_TYPE                       = MediaType("text","plain");
-const MediaType TEXT_XML_TYPE                         = MediaType("text","xml");
-const MediaType WILDCARD_TYPE                         = MediaType();
+const MediaType MediaType::APPLICATION_ATOM_XML_TYPE             = MediaType("application","atom+xml");
+const MediaType MediaType::APPLICATION_FORM_URLENCODED_TYPE      = MediaType("application","x-www-form-urlencoded");
+const MediaType MediaType::APPLICATION_JSON_TYPE                 = MediaType("application","json");
+const MediaType MediaType::APPLICATION_OCTET_STREAM_TYPE         = MediaType("application","octet-stream");
+const MediaType MediaType::APPLICATION_SVG_XML_TYPE              = MediaType("application","svg+xml");
+const MediaType MediaType::APPLICATION_XHTML_XML_TYPE            = MediaType("application","xhtml+xml");
+const MediaType MediaType::APPLICATION_XML_TYPE                  = MediaType("application","xml");
+const MediaType MediaType::MULTIPART_FORM_DATA_TYPE              = MediaType("multipart","form-data");
+const MediaType MediaType::TEXT_HTML_TYPE                        = MediaType("text","html");
+const MediaType MediaType::TEXT_PLAIN_TYPE                       = MediaType("text","plain");
+const MediaType MediaType::TEXT_XML_TYPE                         = MediaType("text","xml");
+const MediaType MediaType::WILDCARD_TYPE                         = MediaType();
 
 MediaType::MediaType() {
     this->type = MEDIA_TYPE_WILDCARD;
-- 
2.43.0


From 50e6b094264801c3c23acb3c8e30f1cc6ae1b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 094/127] fix: Arrays.binarySearch finds the key in ranges of
 one or two elements

---
 library/Java/Util/Arrays/Arrays.hpp | 32 ++++-------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index e8e1184..f7a0a93 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -424,27 +424,15 @@ namespace Java {
                 int right = toIndex;
 
                 while (left < right) {
-                    int mid = (left + right) / 2;
-
+                    int mid = left + (right - left) / 2;
                     if (array[mid] >= key) {
                         right = mid;
                     } else {
                         left = mid + 1;
                     }
-
-                    if (left == right - 1) { /// Get very first left postition in array
-                        if (array[left] == key) {
-                            return left;
-                        }
-                        if (array[right] == key) {
-                            return right;
-                        }
-
-                        break;
-                    }
                 }
 
-                return -1;
+                return array[left] == key ? left : -1; /// Get very first left postition in array
             }
 
             // Support Array<E>
@@ -463,27 +451,15 @@ namespace Java {
                 int right = toIndex;
 
                 while (left < right) {
-                    int mid = (left + right) / 2;
-
+                    int mid = left + (right - left) / 2;
                     if (array[mid] >= key) {
                         right = mid;
                     } else {
                         left = mid + 1;
                     }
-
-                    if (left == right - 1) { /// Get very first left postition in array
-                        if (array[left] == key) {
-                            return left;
-                        }
-                        if (array[right] == key) {
-                            return right;
-                        }
-
-                        break;
-                    }
                 }
 
-                return -1;
+                return array[left] == key ? left : -1; /// Get very first left postition in array
             }
 
             /// Quick sort
-- 
2.43.0


From efed26aaf969ab9dd7e081f6607b35d7947aa93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 095/127] fix: Arrays.binarySearch of a range starts at
 fromIndex

---
 library/Java/Util/Arrays/Arrays.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index f7a0a93..38671ff 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -175,7 +175,7 @@ namespace Java {
                                     int fromIndex,
                                     int toIndex,
                                     Type key) {
-                return BinarySearch(array, 0, toIndex, key);
+                return BinarySearch(array, fromIndex, toIndex, key);
             }
 
             template<typename Type>
@@ -190,7 +190,7 @@ namespace Java {
                                     int fromIndex,
                                     int toIndex,
                                     Type key) {
-                return BinarySearch(array, 0, toIndex, key);
+                return BinarySearch(array, fromIndex, toIndex, key);
             }
 
             COPY_OF(boolean);
-- 
2.43.0


From 158bece5462776ed8a22c0e536b1d70578a85415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 096/127] fix: Arrays.copyOfRange accepts a range that ends at
 the end of the array

---
 library/Java/Util/Arrays/Arrays.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 38671ff..af80f94 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -580,7 +580,7 @@ namespace Java {
                 if (fromIndex < 0
                     || toIndex < 0
                     || toIndex < fromIndex
-                    || toIndex > original.length - 1) {
+                    || toIndex > original.length) {
                     return result;
                 }
 
-- 
2.43.0


From 7df4874700d07b6cc62d678f4990980b555fd3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 097/127] fix: Arrays.copyOf pads with the default value of the
 element type

---
 library/Java/Util/Arrays/Arrays.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index af80f94..436ff51 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -49,7 +49,7 @@ static int binarySearchByKey(TYPE array[],\
 #define COPY_OF(TYPE); \
 static Array<TYPE> copyOf(const Array<TYPE> &original,\
                             int newLength) {\
-    return copyOfOrigin(original, newLength, NULL);\
+    return copyOfOrigin(original, newLength, TYPE());\
 }
 
 #define COPY_OF_RANGE(TYPE); \
@@ -204,7 +204,7 @@ namespace Java {
             template<typename Type>
             static Array<Type> copyOf(Array<Type> original,
                                       int newLength) {
-                return copyOfOrigin(original, newLength, NULL);
+                return copyOfOrigin(original, newLength, Type());
             }
 
             template<typename Type, typename AnotherType>
-- 
2.43.0


From 3360a9289f3255e08bab4e6820221abb3d20d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 098/127] fix: Arrays.copyOf into another element type copies
 elements up to the new length

---
 library/Java/Util/Arrays/Arrays.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 436ff51..424ec26 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -212,11 +212,16 @@ namespace Java {
                                       int newLength, 
                                       Type newType) {
                 Array<Type> result;
-                for (AnotherType element: anotherType) {
-                    Type newElement = (Type) anotherType;  // Type must have array constructor of AnotherType
+                int copyLength = Math::min(anotherType.length, newLength);
+                for (int index = 0; index < copyLength; ++index) {
+                    Type newElement = (Type) anotherType[index];  // Type must have constructor of AnotherType
                     result.push(newElement);
                 }
 
+                for (int index = copyLength; index < newLength; ++index) {
+                    result.push(Type());
+                }
+
                 return result;
             }
 
-- 
2.43.0


From bbe3d04ecf8f92e9f784351e3999a8ad7befe933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 099/127] fix: Arrays.hashCode of float and double arrays uses
 the bits of the elements

---
 library/Java/Util/Arrays/Arrays.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index 424ec26..ce1510d 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -314,7 +314,19 @@ namespace Java {
 
             HASH_CODE(byte);
             HASH_CODE(char);
-            HASH_CODE(float);
+            static int hashCode(Array<float> array) {
+                if (array.length == 0) {
+                    return 0;
+                }
+
+                int result = 1;
+                for (float element : array) {
+                    result = 31 * result + Float::floatToIntBits(element + 0.0f); // 0.0 and -0.0 are equal
+                }
+
+                return result;
+            }
+
             HASH_CODE(int);
             HASH_CODE(short);
 
@@ -338,7 +350,7 @@ namespace Java {
 
                 int result = 1;
                 for (double element : array) {
-                    long bits = long(element);
+                    long bits = Double::doubleToLongBits(element + 0.0); // 0.0 and -0.0 are equal
                     result = 31 * result + (int) (bits ^ (bits >> 32));
                 }
                 return result;
-- 
2.43.0


From a7a0b96632c416ee8ff3486cf457b7925ec50bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 100/127] fix: Arrays.binarySearchByIndex searches arrays of
 objects

---
 library/Java/Util/Arrays/Arrays.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/library/Java/Util/Arrays/Arrays.hpp b/library/Java/Util/Arrays/Arrays.hpp
index ce1510d..04a6658 100755
--- a/library/Java/Util/Arrays/Arrays.hpp
+++ b/library/Java/Util/Arrays/Arrays.hpp
@@ -149,6 +149,14 @@ namespace Java {
                 return -1;
             }
 
+            template<typename Type>
+            static int binarySearchByIndex(Type *array,
+                                           int fromIndex,
+                                           int toIndex,
+                                           Type key) {
+                return BinarySearch(array, fromIndex, toIndex, key);
+            }
+
             BINARY_SEARCH_BY_KEY(char);
             BINARY_SEARCH_BY_KEY(byte);
             BINARY_SEARCH_BY_KEY(short);
-- 
2.43.0


From d2f80681f972fc6b6b5a6d2f8498b158918394c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 101/127] fix: Float.floatToIntBits gives the bits of large,
 small and subnormal values

---
 library/Java/Lang/Float/Float.cpp | 214 ++----------------------------
 1 file changed, 10 insertions(+), 204 deletions(-)

diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 3ee56b9..d642e99 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -197,217 +197,23 @@ Float Float::valueOf(float inputFloat) {
 }
 
 String Float::floatToBinary32StringType(float floatInput) {
-    string integerPartNormalizeForm = (string) calloc (280, sizeof(char));
-    string fractionPartNormalizeForm = (string) calloc (25, sizeof(char));
-    string floatInputNormalizeForm = (string) calloc (280, sizeof(char));
-    string resultFloatToBinary32StringType
-            = (string) calloc (33, sizeof(char));
-
-    int powerExponentBase2 = 0;
-    int integerPartFloatInput;
-
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfFloatInputNormalizeForm;
-
-    int sizeOfExponentPartBinary32 = 8;
-
-    int indexOfFor;
-    int index;
-    int indexOfDotFloatInputNormalizeForm;
-    int indexFirstBit1FloatInputNormalizeForm;
-    int indexBeginFractionPartResultFloatToBinary32StringType = 0;
-
-    int exponentBiasBinary32 = 127;
-    int exponentFloatInput;
-
-    float fractionPartFloatInput;
-
-    for (indexOfFor = 0 ; indexOfFor <= 31; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = '0';
-        resultFloatToBinary32StringType[indexOfFor] = '0';
-    }
-
-    for (indexOfFor = 0 ; indexOfFor <= 23; indexOfFor++) {
-        integerPartNormalizeForm[indexOfFor] = '0';
-        fractionPartNormalizeForm[indexOfFor] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[279] = '\0';
-    fractionPartNormalizeForm[24] = '\0';
-    floatInputNormalizeForm[279] = '\0';
-    resultFloatToBinary32StringType[32] = '\0';
-
-    if (floatInput >= 0) {
-        resultFloatToBinary32StringType[0] = '0';
-    }
-
-    if (floatInput < 0) {
-        resultFloatToBinary32StringType[0] = '1';
-    }
-
-    if (floatInput == 0) {
-        goto outPut;
-    }
-
-    if (floatInput == Float::POSITIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "01111111100000000000000000000000");
-        goto outPut;
-    }
-
-    if (floatInput == Float::NEGATIVE_INFINITY) {
-        strcpy(resultFloatToBinary32StringType, "11111111100000000000000000000000");
-        goto outPut;
-    }
-
     if (isNaN(floatInput)) {
-        strcpy(resultFloatToBinary32StringType, "01111111111111111111111111111111");
-
-        goto outPut;
-    }
-
-    /** Get |floatInput| */
-    floatInput = fabs(floatInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartFloatInput = (int) floor(floatInput);
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartFloatInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
-    }
-
-    if (integerPartFloatInput != 0) {
-        while (integerPartFloatInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartFloatInput = integerPartFloatInput >> 1;
-        }
-    }
-
-    integerPartFloatInput = (int) floor(floatInput);
-    index = sizeOfIntegerPartNormalizeForm -1;
-    while (integerPartFloatInput != 0) {
-        if ((integerPartFloatInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartFloatInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartFloatInput = integerPartFloatInput >> 1;
+        return "01111111111111111111111111111111";
     }
 
-    fractionPartFloatInput = floatInput - integerPartFloatInput;
-    index = 0;
-
-    while ((fractionPartFloatInput != 0) && (index < 24)) {
-        fractionPartFloatInput = fractionPartFloatInput * 2;
-
-        int integerPart = (int) floor(fractionPartFloatInput);
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartFloatInput = fractionPartFloatInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to floatInputNormalizeForm */
-    for (indexOfFor = 0; indexOfFor < sizeOfIntegerPartNormalizeForm; indexOfFor++) {
-        floatInputNormalizeForm[indexOfFor] = integerPartNormalizeForm[indexOfFor];
-    }
-
-    indexOfDotFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    floatInputNormalizeForm[indexOfDotFloatInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to floatInputNormalizeForm
-     */
-    index = indexOfDotFloatInputNormalizeForm +1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFractionPartNormalizeForm; indexOfFor++, index++) {
-        floatInputNormalizeForm[index]
-                = fractionPartNormalizeForm[indexOfFor];
-    }
-
-    sizeOfFloatInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                    + sizeOfFractionPartNormalizeForm;
-
-    indexFirstBit1FloatInputNormalizeForm = 1;
-    for (indexOfFor = 0; indexOfFor <= sizeOfFloatInputNormalizeForm; indexOfFor++) {
-        if (floatInputNormalizeForm[indexOfFor] == '1') {
-            indexFirstBit1FloatInputNormalizeForm = indexOfFor;
-            break;
-        }
-    }
-
-    integerPartFloatInput = (int) floor(floatInput);
-    if (integerPartFloatInput != 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm -1;
+    // There is only one form of zero
+    unsigned int bits = 0;
+    if (floatInput != 0) {
+        memcpy(&bits, &floatInput, sizeof(bits));
     }
 
-    if (integerPartFloatInput == 0) {
-        powerExponentBase2 = indexOfDotFloatInputNormalizeForm
-                             - indexFirstBit1FloatInputNormalizeForm;
+    char result[33];
+    for (int index = 0; index < 32; index++) {
+        result[index] = ((bits >> (31 - index)) & 1) ? '1' : '0';
     }
+    result[32] = '\0';
 
-    exponentFloatInput = powerExponentBase2 + exponentBiasBinary32;
-
-    index = sizeOfExponentPartBinary32;
-
-    while (exponentFloatInput != 0) {
-        if ((exponentFloatInput & 1) == 1) {
-            resultFloatToBinary32StringType[index] = '1';
-        }
-
-        if ((exponentFloatInput & 1) == 0) {
-            resultFloatToBinary32StringType[index] = '0';
-        }
-
-        index--;
-        exponentFloatInput = exponentFloatInput >> 1;
-    }
-
-    indexBeginFractionPartResultFloatToBinary32StringType
-            = sizeOfExponentPartBinary32 + 1;
-
-    index = indexBeginFractionPartResultFloatToBinary32StringType;
-    indexOfFor = indexFirstBit1FloatInputNormalizeForm + 1;
-
-    for (index ; index <= 31; index++) {
-        if (indexOfFor == sizeOfFloatInputNormalizeForm) {
-            break;
-        }
-
-        if (indexOfFor == indexOfDotFloatInputNormalizeForm) {
-            indexOfFor++;
-        }
-
-        resultFloatToBinary32StringType[index]
-                = floatInputNormalizeForm[indexOfFor];
-        indexOfFor++;
-    }
-
-    outPut:
-    /** Return resultFloatToBinary32StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(floatInputNormalizeForm);
-    String result = resultFloatToBinary32StringType;
-    free(resultFloatToBinary32StringType);
-
-    return  result;
+    return result;
 }
 
 float Float::binary32StringTypeToFloat(String binary32StringTypeInput) {
-- 
2.43.0


From 14e68c85fa859865d1a3142d9063f94ca5945b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 102/127] fix: Double.doubleToLongBits gives the bits of large,
 small and subnormal values

---
 library/Java/Lang/Double/Double.cpp | 221 ++--------------------------
 1 file changed, 9 insertions(+), 212 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 37740cf..68e31b7 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -373,224 +373,21 @@ double Double::min(double doubleA, double doubleB) {
 //}
 
 String Double::doubleToBinary64StringType(double doubleInput) {
-    auto integerPartNormalizeForm = (string) allocateMemory(2048 * sizeof(char));
-    auto fractionPartNormalizeForm = (string) allocateMemory(54 * sizeof(char));
-    auto doubleInputNormalizeForm = (string) allocateMemory(2102 * sizeof(char));
-    auto resultDoubleToBinary64StringType = (string) allocateMemory(65 * sizeof(char));
-
-    int powerExponentBase2 = 0;
-    int integerPartDoubleInput;
-
-    int sizeOfIntegerPartNormalizeForm;
-    int sizeOfFractionPartNormalizeForm;
-    int sizeOfDoubleInputNormalizeForm;
-
-    int sizeOfExponentPartBinary64 = 11;
-
-    int i;
-    int index;
-    int indexOfDotDoubleInputNormalizeForm;
-    int indexFirstBit1DoubleInputNormalizeForm;
-    int indexBeginFractionPartResultDoubleToBinary64StringType = 0;
-
-    int exponentBiasBinary64 = 1023;
-    int exponentDoubleInput;
-
-    double fractionPartDoubleInput;
-
-    for (i = 0; i <= 63; i++) {
-        doubleInputNormalizeForm[i] = '0';
-        resultDoubleToBinary64StringType[i] = '0';
-    }
-
-    for (i = 0; i <= 52; i++) {
-        integerPartNormalizeForm[i] = '0';
-        fractionPartNormalizeForm[i] = '0';
-    }
-
-    /** Set end point for string type */
-    integerPartNormalizeForm[2047] = '\0';
-    fractionPartNormalizeForm[53] = '\0';
-    doubleInputNormalizeForm[2101] = '\0';
-    resultDoubleToBinary64StringType[64] = '\0';
-
-    if (doubleInput >= 0) {
-        resultDoubleToBinary64StringType[0] = '0';
-    }
-
-    if (doubleInput < 0) {
-        resultDoubleToBinary64StringType[0] = '1';
-    }
-
-    if (doubleInput == 0) {
-        goto outPut;
-    }
-
-    if (doubleInput == POSITIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
-
-    if (doubleInput == NEGATIVE_INFINITY) {
-        strcpy(resultDoubleToBinary64StringType,
-               "1111111111110000000000000000000000000000000000000000000000000000");
-
-        goto outPut;
-    }
-
     if (isNaN(doubleInput)) {
-        strcpy(resultDoubleToBinary64StringType,
-               "0111111111111111111111111111111111111111111111111111111111111111");
-
-        goto outPut;
-    }
-
-    /** Get |doubleInput| */
-    doubleInput = fabs(doubleInput);
-
-    /** Get size of integerPartNormalizeForm  */
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    sizeOfIntegerPartNormalizeForm = 0;
-
-    if (integerPartDoubleInput == 0) {
-        sizeOfIntegerPartNormalizeForm = 1;
-    }
-
-    if (integerPartDoubleInput != 0) {
-        while (integerPartDoubleInput != 0) {
-            sizeOfIntegerPartNormalizeForm++;
-            integerPartDoubleInput = integerPartDoubleInput >> 1;
-        }
-    }
-
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    index = sizeOfIntegerPartNormalizeForm - 1;
-
-    while (integerPartDoubleInput != 0) {
-
-        if ((integerPartDoubleInput & 1) == 1) {
-            integerPartNormalizeForm[index] = '1';
-        }
-
-        if ((integerPartDoubleInput & 1) == 0) {
-            integerPartNormalizeForm[index] = '0';
-        }
-
-        index--;
-        integerPartDoubleInput = integerPartDoubleInput >> 1;
-    }
-
-    fractionPartDoubleInput = doubleInput - integerPartDoubleInput;
-    index = 0;
-
-    while ((fractionPartDoubleInput != 0) && (index < 53)) {
-        fractionPartDoubleInput = fractionPartDoubleInput * 2;
-
-        int integerPart = static_cast<int> (floor(fractionPartDoubleInput));
-
-        if (integerPart == 1) {
-            fractionPartNormalizeForm[index] = '1';
-        }
-
-        if (integerPart == 0) {
-            fractionPartNormalizeForm[index] = '0';
-        }
-
-        index++;
-        fractionPartDoubleInput = fractionPartDoubleInput - integerPart;
-    }
-
-    sizeOfFractionPartNormalizeForm = index;
-
-    /** Copy value from integerPartNormalizeForm to doubleInputNormalizeForm */
-    for (i = 0; i < sizeOfIntegerPartNormalizeForm; i++) {
-        doubleInputNormalizeForm[i] = integerPartNormalizeForm[i];
-    }
-
-    indexOfDotDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm;
-
-    doubleInputNormalizeForm[indexOfDotDoubleInputNormalizeForm] = '.';
-
-    /** Copy value from fractionPartNormalizeForm
-     * to doubleInputNormalizeForm
-     */
-    index = indexOfDotDoubleInputNormalizeForm + 1;
-    for (i = 0; i <= sizeOfFractionPartNormalizeForm; i++, index++) {
-        doubleInputNormalizeForm[index]
-                = fractionPartNormalizeForm[i];
-    }
-
-    sizeOfDoubleInputNormalizeForm = sizeOfIntegerPartNormalizeForm + 1
-                                     + sizeOfFractionPartNormalizeForm;
-
-    /** Assign value to indexFirstBit1DoubleInputNormalizeForm */
-    indexFirstBit1DoubleInputNormalizeForm = 1;
-    for (i = 0; i <= sizeOfDoubleInputNormalizeForm; i++) {
-        if (doubleInputNormalizeForm[i] == '1') {
-            indexFirstBit1DoubleInputNormalizeForm = i;
-            break;
-        }
-    }
-
-    integerPartDoubleInput = static_cast<int> (floor(doubleInput));
-    if (integerPartDoubleInput != 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm - 1;
+        return "0111111111111111111111111111111111111111111111111111111111111111";
     }
 
-    if (integerPartDoubleInput == 0) {
-        powerExponentBase2 = indexOfDotDoubleInputNormalizeForm
-                             - indexFirstBit1DoubleInputNormalizeForm;
+    // There is only one form of zero
+    unsigned long bits = 0;
+    if (doubleInput != 0) {
+        memcpy(&bits, &doubleInput, sizeof(bits));
     }
 
-    exponentDoubleInput = powerExponentBase2 + exponentBiasBinary64;
-
-    index = sizeOfExponentPartBinary64;
-
-    while (exponentDoubleInput != 0) {
-
-        if ((exponentDoubleInput & 1) == 1) {
-            resultDoubleToBinary64StringType[index] = '1';
-        }
-
-        if ((exponentDoubleInput & 1) == 0) {
-            resultDoubleToBinary64StringType[index] = '0';
-        }
-
-        index--;
-        exponentDoubleInput = exponentDoubleInput >> 1;
+    char result[65];
+    for (int index = 0; index < 64; index++) {
+        result[index] = ((bits >> (63 - index)) & 1) ? '1' : '0';
     }
-
-    indexBeginFractionPartResultDoubleToBinary64StringType
-            = sizeOfExponentPartBinary64 + 1;
-
-    index = indexBeginFractionPartResultDoubleToBinary64StringType;
-    i = indexFirstBit1DoubleInputNormalizeForm + 1;
-
-    for (index; index <= 63; index++) {
-        if (i == sizeOfDoubleInputNormalizeForm) {
-            break;
-        }
-
-        if (i == indexOfDotDoubleInputNormalizeForm) {
-            i++;
-        }
-
-        resultDoubleToBinary64StringType[index]
-                = doubleInputNormalizeForm[i];
-        i++;
-    }
-
-    outPut:
-    /** Return resultDoubleToBinary64StringType */
-    free(integerPartNormalizeForm);
-    free(fractionPartNormalizeForm);
-    free(doubleInputNormalizeForm);
-
-    String result = resultDoubleToBinary64StringType;
-    free(resultDoubleToBinary64StringType);
+    result[64] = '\0';
 
     return result;
 }
-- 
2.43.0


From 38a7198daf8a22a870a4e42496832d404290e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 103/127] fix: Double.longBitsToDouble gives subnormal values,
 infinities and NaN

---
 library/Java/Lang/Double/Double.cpp | 65 +++--------------------------
 1 file changed, 6 insertions(+), 59 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 68e31b7..c00d705 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -393,68 +393,15 @@ String Double::doubleToBinary64StringType(double doubleInput) {
 }
 
 double Double::binary64StringTypeToDouble(String binary64StringTypeInput) {
-    // Create variable
-    int signOfResultbinary64StringTypeToDouble;
-    double exponent;
-    double exponentAdjusted;
-    double mantisaBase10;
-    double resultBinary64StringTypeToDouble;
-
-    int tempValue = 0;
-    int tempExponent;
-    int i;
-
-    boolean isNaN = true;
-
-    // 1. Find signOfResultbinary64StringTypeToDouble
-    signOfResultbinary64StringTypeToDouble = 1;
-
-    if (binary64StringTypeInput.charAt(0) == '1') {
-        signOfResultbinary64StringTypeToDouble = -1;
-    }
-
-    // 2. Convert the exponent from base 2 -> base 10
-    exponent = 0;
-    tempExponent = 10;
-    for (i = 1; i <= 11; i++) {
-        if (binary64StringTypeInput.charAt(i) == '1') {
-            tempValue = 1;
-        }
-
-        if (binary64StringTypeInput.charAt(i) == '0') {
-            tempValue = 0;
-            isNaN = false;
-        }
-
-        exponent = exponent + tempValue * Math::pow(2, tempExponent);
-        tempExponent--;
-    }
-    // 3. Find exponentAdjusted
-    exponentAdjusted = exponent - 1023;
-
-    // 4. Convert the mantissa from base 2 -> base 10
-    mantisaBase10 = 0;
-    tempExponent = -1;
-    for (i = 12; i <= 63; i++) {
-        if (binary64StringTypeInput.charAt(i) == '1') {
-            tempValue = 1;
-        }
-
-        if (binary64StringTypeInput.charAt(i) == '0') {
-            tempValue = 0;
-            isNaN = false;
-        }
-
-        mantisaBase10 = mantisaBase10 + tempValue * Math::pow(2, tempExponent);
-        tempExponent--;
+    unsigned long bits = 0;
+    for (int index = 0; index < 64; index++) {
+        bits = (bits << 1) | (binary64StringTypeInput.charAt(index) == '1');
     }
 
-    // 5. Find the Double precision floating point decimal value
-    resultBinary64StringTypeToDouble
-            = signOfResultbinary64StringTypeToDouble * (1 + mantisaBase10)
-              * Math::pow(2, exponentAdjusted);
+    double result;
+    memcpy(&result, &bits, sizeof(result));
 
-    return resultBinary64StringTypeToDouble;
+    return result;
 }
 
 String Double::longBitsToBinary64StringType(long longBitsInput) {
-- 
2.43.0


From f3ee2b636d38ca7bd77b33dcd48347d3599d3d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 104/127] fix: assigning a Float keeps the text of the value

---
 library/Java/Lang/Float/Float.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index d642e99..93081ca 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -112,7 +112,7 @@ boolean Float::operator||(const Float &target) const {
 Float& Float::operator=(const Float &target) {
     this->original = target.original;
     free(this->originalString);
-    asprintf(&this->originalString, "%f", this->original);
+    asprintf(&this->originalString, "%g", this->original);
     return *this;
 }
 
-- 
2.43.0


From 5ea218331e7aade83f434e504e698b58c95b7a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 105/127] fix: Double() has the same text as Double(0)

---
 library/Java/Lang/Double/Double.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index c00d705..f0ec888 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -30,7 +30,7 @@ using namespace Java::Lang;
 
 Double::Double() {
     this->original = 0;
-    asprintf(&this->originalString, "%lg", this->original);
+    asprintf(&this->originalString, "%.15f", this->original);
 }
 
 Double::Double(double original) {
-- 
2.43.0


From ac8ac40ad2d66331bb8340c0b901d5ebe2bae605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 106/127] fix: Float compound assignment operators change the
 object

---
 library/Java/Lang/Float/Float.cpp | 16 ++++++++--------
 library/Java/Lang/Float/Float.hpp |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 93081ca..49ce09b 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -116,20 +116,20 @@ Float& Float::operator=(const Float &target) {
     return *this;
 }
 
-Float Float::operator+=(const Float &target) const {
-    return (Float) (this->original + target.original);
+Float Float::operator+=(const Float &target) {
+    return *this = *this + target;
 }
 
-Float Float::operator-=(const Float &target) const {
-    return (Float) (this->original - target.original);
+Float Float::operator-=(const Float &target) {
+    return *this = *this - target;
 }
 
-Float Float::operator*=(const Float &target) const {
-    return (Float) (this->original * target.original);
+Float Float::operator*=(const Float &target) {
+    return *this = *this * target;
 }
 
-Float Float::operator/=(const Float &target) const {
-    return (Float) (this->original / target.original);
+Float Float::operator/=(const Float &target) {
+    return *this = *this / target;
 }
 
 float Float::floatValue() const {
diff --git a/library/Java/Lang/Float/Float.hpp b/library/Java/Lang/Float/Float.hpp
index e1cc7ec..5f7845d 100755
--- a/library/Java/Lang/Float/Float.hpp
+++ b/library/Java/Lang/Float/Float.hpp
@@ -271,7 +271,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator+=(const Float &target) const;
+						Float operator+=(const Float &target);
 						
 						/**
 						 * Subtract AND assignment operator,
@@ -281,7 +281,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator-=(const Float &target) const;
+						Float operator-=(const Float &target);
 						
 						/**
 						 * Multiply AND assignment operator,
@@ -291,7 +291,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator*=(const Float &target) const;
+						Float operator*=(const Float &target);
 						
 						/**
 						 * Divide AND assignment operator,
@@ -301,7 +301,7 @@ namespace Java {
 						 * @param   target
 						 * @return  Float
 						 */
-						Float operator/=(const Float &target) const;
+						Float operator/=(const Float &target);
 						
 						/**
 						 * Short value of Float
-- 
2.43.0


From 93836ae9baa1eb71c615638d5f31d956d0ee0670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 107/127] fix: Double compound assignment operators change the
 object

---
 library/Java/Lang/Double/Double.cpp | 16 ++++++++--------
 library/Java/Lang/Double/Double.hpp |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index f0ec888..0f959b0 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -184,20 +184,20 @@ Double &Double::operator=(const Double &target) {
     return *this;
 }
 
-Double Double::operator+=(const Double &target) const {
-    return (Double) (this->original + target.original);
+Double Double::operator+=(const Double &target) {
+    return *this = *this + target;
 }
 
-Double Double::operator-=(const Double &target) const {
-    return (Double) (this->original - target.original);
+Double Double::operator-=(const Double &target) {
+    return *this = *this - target;
 }
 
-Double Double::operator*=(const Double &target) const {
-    return (Double) (this->original * target.original);
+Double Double::operator*=(const Double &target) {
+    return *this = *this * target;
 }
 
-Double Double::operator/=(const Double &target) const {
-    return (Double) (this->original / target.original);
+Double Double::operator/=(const Double &target) {
+    return *this = *this / target;
 }
 
 int Double::compare(double double1, double double2) {
diff --git a/library/Java/Lang/Double/Double.hpp b/library/Java/Lang/Double/Double.hpp
index 2291882..d8946f2 100755
--- a/library/Java/Lang/Double/Double.hpp
+++ b/library/Java/Lang/Double/Double.hpp
@@ -228,7 +228,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator+=(const Double &target) const;
+            Double operator+=(const Double &target);
 
             /**
              * Subtract AND assignment operator,
@@ -238,7 +238,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator-=(const Double &target) const;
+            Double operator-=(const Double &target);
 
             /**
              * Multiply AND assignment operator,
@@ -248,7 +248,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator*=(const Double &target) const;
+            Double operator*=(const Double &target);
 
             /**
              * Divide AND assignment operator,
@@ -258,7 +258,7 @@ namespace Java {
              * @param target
              * @return Double
              */
-            Double operator/=(const Double &target) const;
+            Double operator/=(const Double &target);
 
             /**
              * Double to Char
-- 
2.43.0


From bbf57423bf32cd1c1e5c3bc5e8a0ce83c1a4a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 108/127] fix: Float.parseFloat raises NumberFormatException
 for text that is not a number

---
 library/Java/Lang/Float/Float.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Float/Float.cpp b/library/Java/Lang/Float/Float.cpp
index 49ce09b..2411be7 100755
--- a/library/Java/Lang/Float/Float.cpp
+++ b/library/Java/Lang/Float/Float.cpp
@@ -26,6 +26,7 @@
 
 #include "Float.hpp"
 #include "../Math/Math.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 
 using namespace Java::Lang;
 
@@ -161,8 +162,13 @@ String Float::toString() const {
 }
 
 Float Float::parseFloat(String inputString) {
-    float result;
-    sscanf(inputString.toCharPointer(), "%g", &result);
+    string text = inputString.toCharPointer();
+    string end = text;
+    float result = strtof(text, &end);
+    if (end == text || end != text + inputString.length()) {
+        throw NumberFormatException("Not a number");
+    }
+
     return (Float)result;
 }
 
-- 
2.43.0


From 79168cb33bc1cab708749a2f4900e61a2ae8d9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:24 +0000
Subject: [PATCH 109/127] fix: Double.parseDouble raises NumberFormatException
 for text that is not a number

---
 library/Java/Lang/Double/Double.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Double/Double.cpp b/library/Java/Lang/Double/Double.cpp
index 0f959b0..0b9ddc3 100755
--- a/library/Java/Lang/Double/Double.cpp
+++ b/library/Java/Lang/Double/Double.cpp
@@ -25,6 +25,7 @@
  */
 
 #include "Double.hpp"
+#include "../NumberFormatException/NumberFormatException.hpp"
 
 using namespace Java::Lang;
 
@@ -63,8 +64,13 @@ Double::~Double() {
 }
 
 Double Double::parseDouble(String target) {
-    double result;
-    sscanf(target.toCharPointer(), "%lg", &result);
+    string text = target.toCharPointer();
+    string end = text;
+    double result = strtod(text, &end);
+    if (end == text || end != text + target.length()) {
+        throw NumberFormatException("Not a number");
+    }
+
     return result;
 }
 
-- 
2.43.0


From e50e203cbbdf4c4b68c9a725ed23f070ba8b4c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 110/127] fix: Double.MIN_VALUE is the smallest positive value
 and MIN_NORMAL the smallest normal one

---
 library/Java/Lang/Double/Double.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Double/Double.hpp b/library/Java/Lang/Double/Double.hpp
index d8946f2..f7b137b 100755
--- a/library/Java/Lang/Double/Double.hpp
+++ b/library/Java/Lang/Double/Double.hpp
@@ -101,12 +101,12 @@ namespace Java {
             /**
              * A constant holding the smallest positive normal value of type
              */
-            static constexpr double MIN_NORMAL = std::numeric_limits<double>::denorm_min();  // 2.225073858507201e-308
+            static constexpr double MIN_NORMAL = std::numeric_limits<double>::min();  // 2.225073858507201e-308
 
             /**
              * A constant holding the smallest positive nonzero value of type
              */
-            static constexpr double MIN_VALUE = std::numeric_limits<double>::min();  // 4.940656458412465e-324
+            static constexpr double MIN_VALUE = std::numeric_limits<double>::denorm_min();  // 4.940656458412465e-324
 
         public:
             Double();
-- 
2.43.0


From 6e4faeb15b1290cc54a6693f297932f314bb38e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 111/127] fix: Math.getExponent of negative subnormal values

---
 library/Java/Lang/Math/Math.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 57ec307..1408319 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -182,10 +182,9 @@ int Math::getExponent(double value) {
 		return Double::MIN_EXPONENT - 1;
 	}
 	
-	double mantissas;
-	int exponent;
-	mantissas = std::frexp(value, &exponent);
-	if (mantissas * 10 >= 1.0 && exponent - 1 < Double::MIN_EXPONENT) {
+		int exponent;
+	std::frexp(value, &exponent);
+	if (exponent - 1 < Double::MIN_EXPONENT) {
 		return Double::MIN_EXPONENT - 1;
 	}
 	
@@ -201,10 +200,9 @@ int Math::getExponent(float value) {
 		return Float::MIN_EXPONENT - 1;
 	}
 	
-	double mantissas;
-	int exponent;
-	mantissas = std::frexp(value, &exponent);
-	if ((mantissas * 10) >= 1.0 && (exponent - 1) < Float::MIN_EXPONENT) {
+		int exponent;
+	std::frexp(value, &exponent);
+	if ((exponent - 1) < Float::MIN_EXPONENT) {
 		return Float::MIN_EXPONENT - 1;
 	}
 	
-- 
2.43.0


From 816b3ec21cfde09246492777cd26e6f67d13762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 112/127] fix: Math.IEEERemainder is exact for every pair of
 finite values

---
 library/Java/Lang/Math/Math.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 1408319..8bd5b1b 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -214,7 +214,11 @@ double Math::hypot(double valueA, double valueB) {
 }
 
 inline double math_ieeeremainder(double dividend, double divisor) {
-	return dividend - ( round(dividend / divisor) * divisor );
+	if (Double::isInfinite(divisor)) {
+		return Double::NaN;
+	}
+	
+	return ::remainder(dividend, divisor);
 }
 
 double Math::IEEERemainder(double dividend, double divisor) {
-- 
2.43.0


From ff6c8c1513b42d196cfad9f92f97d5f2baabd49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 113/127] fix: Math.round of NaN and of values outside the
 range of the result

---
 library/Java/Lang/Math/Math.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 8bd5b1b..2c0e5c0 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -414,11 +414,35 @@ double Math::rint(double value) {
 }
 
 int Math::round(float value) {
-	return (int) ::roundf(value);
+	if (Float::isNaN(value)) {
+		return 0;
+	}
+	
+	float result = ::roundf(value);
+	if (result <= (float) Integer::MIN_VALUE) {
+		return Integer::MIN_VALUE;
+	}
+	if (result >= (float) Integer::MAX_VALUE) {
+		return Integer::MAX_VALUE;
+	}
+	
+	return (int) result;
 }
 
 long Math::round(double value) {
-	return (long) ::round(value);
+	if (Double::isNaN(value)) {
+		return 0;
+	}
+	
+	double result = ::round(value);
+	if (result <= (double) Long::MIN_VALUE) {
+		return Long::MIN_VALUE;
+	}
+	if (result >= (double) Long::MAX_VALUE) {
+		return Long::MAX_VALUE;
+	}
+	
+	return (long) result;
 }
 
 float Math::scalb(float value, int scaleFactor) {
-- 
2.43.0


From 37c0467cf47c6cf4e59a3cd8fbe3619efaf8127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 114/127] fix: Math.ulp of float values

---
 library/Java/Lang/Math/Math.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 2c0e5c0..1eb8d52 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -393,15 +393,13 @@ double Math::powerOfTwoD(int exponent) {
 		<< (Double::SIGNIFICAND_WIDTH - oneLong)) & Double::EXP_BIT_MASK);
 }
 
-// TODO need Float::intBitsToFloat
 float Math::powerOfTwoF(int exponent) {
 	if (exponent < Float::MIN_EXPONENT || exponent > Float::MAX_EXPONENT) {
 		throw AssertionError(exponent);
 	}
 	
-	/*return Float::intBitsToFloat(((exponent + Float::EXP_BIAS)
-			<< (Float::SIGNIFICAND_WIDTH-1)) & Float::EXP_BIT_MASK);*/
-	return 0;
+	return Float::intBitsToFloat(((exponent + Float::EXP_BIAS)
+		<< (Float::SIGNIFICAND_WIDTH - 1)) & Float::EXP_BIT_MASK);
 }
 
 double Math::random() {
@@ -523,7 +521,6 @@ double Math::toRadians(double angleDegree) {
 	return angleDegree / 180.0 * PI;
 }
 
-//TODO need Float::intBitsToFloat
 float Math::ulp(float value) {
 	if (value == Float::MAX_VALUE || value == -Float::MAX_VALUE) {
 		return (float) Math::pow(2, 104);
@@ -533,7 +530,7 @@ float Math::ulp(float value) {
 		case Float::MAX_EXPONENT + 1:        // NaN or infinity
 			return Math::abs(value);
 		case Float::MIN_EXPONENT - 1:        // zero or subnormal
-			return Float::MIN_VALUE;
+			return std::numeric_limits<float>::denorm_min();
 		default:
 			if (exp > Float::MAX_EXPONENT || exp < Float::MIN_EXPONENT) {
 				throw AssertionError(exp);
@@ -543,10 +540,9 @@ float Math::ulp(float value) {
 			if (exp >= Float::MIN_EXPONENT) {
 				return powerOfTwoF(exp);
 			}
-			/*   return Float::intBitsToFloat(1 << (exp - (Float::MIN_EXPONENT
-														 - (Float::SIGNIFICAND_WIDTH - 1)) ));*/
+			return Float::intBitsToFloat(1 << (exp - (Float::MIN_EXPONENT
+			                                          - (Float::SIGNIFICAND_WIDTH - 1))));
 	}
-	return 0.0;
 }
 
 double Math::ulp(double value) {
-- 
2.43.0


From 01e69384689c66ef98cf1416a6020d59b620501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 115/127] fix: Math.ulp of double values

---
 library/Java/Lang/Math/Math.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/library/Java/Lang/Math/Math.cpp b/library/Java/Lang/Math/Math.cpp
index 1eb8d52..3f7c024 100755
--- a/library/Java/Lang/Math/Math.cpp
+++ b/library/Java/Lang/Math/Math.cpp
@@ -388,9 +388,8 @@ double Math::powerOfTwoD(int exponent) {
 	if (exponent < Double::MIN_EXPONENT || exponent > Double::MAX_EXPONENT) {
 		throw AssertionError(exponent);
 	}
-	long oneLong = 1;
-	return Double::longBitsToDouble(((exponent + Double::EXP_BIAS)
-		<< (Double::SIGNIFICAND_WIDTH - oneLong)) & Double::EXP_BIT_MASK);
+	return Double::longBitsToDouble((((long) exponent + Double::EXP_BIAS)
+		<< (Double::SIGNIFICAND_WIDTH - 1)) & Double::EXP_BIT_MASK);
 }
 
 float Math::powerOfTwoF(int exponent) {
@@ -565,7 +564,7 @@ double Math::ulp(double value) {
 				return powerOfTwoD(exp);
 			}
 			
-			return Double::longBitsToDouble(1 << (exp - (Double::MIN_EXPONENT
+			return Double::longBitsToDouble(1L << (exp - (Double::MIN_EXPONENT
 			                                             - (Double::SIGNIFICAND_WIDTH - 1))));
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 5d7f2da277bb1b07a3cd3d2473a106d7f7587787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:54 +0000
Subject: [PATCH 116/127] fix: a Throwable made without a cause has none

---
 library/Java/Lang/Throwable/Throwable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/library/Java/Lang/Throwable/Throwable.cpp b/library/Java/Lang/Throwable/Throwable.cpp
index 93b5263..10af6bc 100644
--- a/library/Java/Lang/Throwable/Throwable.cpp
+++ b/library/Java/Lang/Throwable/Throwable.cpp
@@ -31,10 +31,12 @@ using namespace Java::Lang;
 
 Throwable::Throwable() {
 	this->message = "";
+	this->cause = nullptr;
 }
 
 Throwable::Throwable(String message) {
 	this->message = message;
+	this->cause = nullptr;
 }
 
 Throwable::Throwable(String message, Throwable *cause) {
-- 
2.43.0


From 91dc0fe64f93faa6ef1b997dc6c87c0b5e741f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:41 +0000
Subject: [PATCH 117/127] fix: SimpleDateFormat.format leaves the time zone of
 the process alone

---
 .../Text/SimpleDateFormat/SimpleDateFormat.cpp     | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
index 5cd8a26..4d280a5 100644
--- a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
+++ b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
@@ -41,8 +41,11 @@ void SimpleDateFormat::setTimeZone(const TimeZone &timeZone) {
 }
 
 String SimpleDateFormat::format(const Date &date) {
-    String tz = String("TZ=") + this->timeZone.getID();
-    putenv(tz.toCharPointer());
+    // the time zone of the process is put back afterwards
+    const_string processZone = std::getenv("TZ");
+    boolean hasProcessZone = processZone != nullptr;
+    std::string savedZone = hasProcessZone ? processZone : "";
+    setenv("TZ", this->timeZone.getID().toCharPointer(), 1);
     std::time_t current_time;
     std::time(&current_time);
     struct std::tm *timeinfo = std::gmtime(&current_time);
@@ -51,7 +54,12 @@ String SimpleDateFormat::format(const Date &date) {
     string buffer = (string) calloc(bufferLength, sizeof(char));
     time_t timestamp = (time_t) ((date.getTime() / 1000) + offset);
     std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), std::localtime(&timestamp));
-    unsetenv("TZ");
+    if (hasProcessZone) {
+        setenv("TZ", savedZone.c_str(), 1);
+    } else {
+        unsetenv("TZ");
+    }
+    tzset();
     String formattedDate = buffer;
     free(buffer);
     return formattedDate.trim();
-- 
2.43.0


From 30eb1eb4eafea9ef74bb830b938048cefb284943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 118/127] fix: SimpleDateFormat.format results longer than 79
 characters

---
 .../Java/Text/SimpleDateFormat/SimpleDateFormat.cpp    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
index 4d280a5..1aa8df7 100644
--- a/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
+++ b/library/Java/Text/SimpleDateFormat/SimpleDateFormat.cpp
@@ -50,10 +50,16 @@ String SimpleDateFormat::format(const Date &date) {
     std::time(&current_time);
     struct std::tm *timeinfo = std::gmtime(&current_time);
     long offset = timeinfo->tm_gmtoff;
+    time_t timestamp = (time_t) ((date.getTime() / 1000) + offset);
+    // the blank at the end, which is trimmed, keeps the result from being empty
+    String pattern = this->datePattern + " ";
     size_t bufferLength = 80;
     string buffer = (string) calloc(bufferLength, sizeof(char));
-    time_t timestamp = (time_t) ((date.getTime() / 1000) + offset);
-    std::strftime(buffer, bufferLength, this->datePattern.toCharPointer(), std::localtime(&timestamp));
+    while (std::strftime(buffer, bufferLength, pattern.toCharPointer(), std::localtime(&timestamp)) == 0) {
+        bufferLength *= 2;
+        free(buffer);
+        buffer = (string) calloc(bufferLength, sizeof(char));
+    }
     if (hasProcessZone) {
         setenv("TZ", savedZone.c_str(), 1);
     } else {
-- 
2.43.0


From 2241e5b55334bc91f15b000171dfc50373072192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 119/127] fix: TimeZone.getTimeZone gives each caller a zone of
 its own

---
 library/Java/Util/TimeZone/TimeZone.cpp | 4 ++--
 library/Java/Util/TimeZone/TimeZone.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/TimeZone/TimeZone.cpp b/library/Java/Util/TimeZone/TimeZone.cpp
index 6f1ce11..cf4395c 100755
--- a/library/Java/Util/TimeZone/TimeZone.cpp
+++ b/library/Java/Util/TimeZone/TimeZone.cpp
@@ -36,8 +36,8 @@ String TimeZone::getID() {
     return this->id;
 }
 
-TimeZone &TimeZone::getTimeZone(String id) {
-    static TimeZone timeZone;
+TimeZone TimeZone::getTimeZone(String id) {
+    TimeZone timeZone;
     timeZone.setID(id);
     return timeZone;
 }
\ No newline at end of file
diff --git a/library/Java/Util/TimeZone/TimeZone.hpp b/library/Java/Util/TimeZone/TimeZone.hpp
index c919b37..3fd3baa 100755
--- a/library/Java/Util/TimeZone/TimeZone.hpp
+++ b/library/Java/Util/TimeZone/TimeZone.hpp
@@ -41,7 +41,7 @@ namespace Java {
         public:
             void setID(String ID);
             String getID();
-            static TimeZone &getTimeZone(String id);
+            static TimeZone getTimeZone(String id);
         };
     }
 }
-- 
2.43.0


From b9c7cf820de15447b0de2b1ba47beff3ae162dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:21 +0000
Subject: [PATCH 120/127] fix: Boolean.hashCode is a function of the value, so
 equal values are equal

---
 library/Java/Lang/Boolean/Boolean.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/Java/Lang/Boolean/Boolean.cpp b/library/Java/Lang/Boolean/Boolean.cpp
index 7f01107..075098c 100644
--- a/library/Java/Lang/Boolean/Boolean.cpp
+++ b/library/Java/Lang/Boolean/Boolean.cpp
@@ -118,7 +118,7 @@ boolean Boolean::getBoolean(const_string target) {
  * @return long
  */
 int Boolean::hashCode() const {
-	return Object::hashCode();
+	return this->original ? 1231 : 1237;
 }
 
 /**
-- 
2.43.0


From 255071f3ba6685777581258c26feca250562282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:21 +0000
Subject: [PATCH 121/127] fix: Boolean(const_string) ignores case

---
 library/Java/Lang/Boolean/Boolean.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/library/Java/Lang/Boolean/Boolean.cpp b/library/Java/Lang/Boolean/Boolean.cpp
index 075098c..c5a3133 100644
--- a/library/Java/Lang/Boolean/Boolean.cpp
+++ b/library/Java/Lang/Boolean/Boolean.cpp
@@ -46,11 +46,7 @@ Boolean::Boolean(const boolean &target) {
  * @param target
  */
 Boolean::Boolean(const_string target) {
-	if (strcmp(target, "True") == 0) {
-		this->original = true;
-	} else {
-		this->original = false;
-	}
+	this->original = Boolean::parseBoolean(target);
 }
 
 /**
-- 
2.43.0


From bbd1ddec168b57e1c9db8e40262d7526c4d0126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:11 +0000
Subject: [PATCH 122/127] fix: String.format gives booleans the width of their
 directive

---
 library/Java/Lang/String/String.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index aa62b24..cd6c5e8 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -718,11 +718,14 @@ Array<String> String::split(const String &regex, int limit) const {
 }
 
 String String::print(const String &format, bool value) {
-	if (format.original == "%b") {
-		return (value ? "true" : "false");
-	}
-	if (format.original == "%B") {
-		return (value ? "TRUE" : "FALSE");
+	const size_t last = format.original.size() - 1;
+	String textFormat = format;
+	textFormat.original[last] = 's';
+	if (format.original[last] == 'b') {
+		return print(textFormat, (const_string) (value ? "true" : "false"));
+	}
+	if (format.original[last] == 'B') {
+		return print(textFormat, (const_string) (value ? "TRUE" : "FALSE"));
 	}
 	return "";
 }
-- 
2.43.0


From b9079b208a324b01806f6c65b55ecf03e0eab06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 123/127] fix: String.format of a text that fills the first
 buffer exactly

---
 library/Java/Lang/String/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index cd6c5e8..d467770 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -824,7 +824,7 @@ String String::print(const String &format, string value) {
 	String result;
 	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
 	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
+	if (length >= DEFAULT_BUFFER_LENGTH) {
 		free(buffer);
 		buffer = (string) calloc(++length, sizeof(char));
 		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
@@ -840,7 +840,7 @@ String String::print(const String &format, const_string value) {
 	String result;
 	auto buffer = (string) calloc(DEFAULT_BUFFER_LENGTH, sizeof(char));
 	int length = snprintf(buffer, DEFAULT_BUFFER_LENGTH, format.toCharPointer(), value);
-	if (length > DEFAULT_BUFFER_LENGTH) {
+	if (length >= DEFAULT_BUFFER_LENGTH) {
 		free(buffer);
 		buffer = (string) calloc(++length, sizeof(char));
 		length = snprintf(buffer, (size_t) length, format.toCharPointer(), value);
-- 
2.43.0


From c0000835c6879b8589b217a17d9a3ec296967b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:34 +0000
Subject: [PATCH 124/127] fix: String.format of numbers longer than 127
 characters

---
 library/Java/Lang/String/String.cpp | 90 +++++++++--------------------
 1 file changed, 27 insertions(+), 63 deletions(-)

diff --git a/library/Java/Lang/String/String.cpp b/library/Java/Lang/String/String.cpp
index d467770..f2a2c41 100644
--- a/library/Java/Lang/String/String.cpp
+++ b/library/Java/Lang/String/String.cpp
@@ -717,6 +717,24 @@ Array<String> String::split(const String &regex, int limit) const {
 	return strings;
 }
 
+/**
+ * Text of a number, however long
+ *
+ * @param format
+ * @param value
+ * @return String
+ */
+template <typename T>
+static String printNumber(const_string format, T value) {
+	const int length = snprintf(nullptr, 0, format, value);
+	if (length <= 0) {
+		return "";
+	}
+	std::vector<char> buffer((size_t) length + 1);
+	snprintf(buffer.data(), buffer.size(), format, value);
+	return String(buffer.data(), length);
+}
+
 String String::print(const String &format, bool value) {
 	const size_t last = format.original.size() - 1;
 	String textFormat = format;
@@ -731,93 +749,39 @@ String String::print(const String &format, bool value) {
 }
 
 String String::print(const String &format, short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printNumber(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printNumber(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printNumber(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, long long value) {
-    String result;
-    char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-    const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-    if (length > 0) {
-        result = String(buffer, length);
-    }
-    return result;
+	return printNumber(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, unsigned short value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printNumber(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, unsigned int value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printNumber(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, unsigned long value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printNumber(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, double value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printNumber(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, float value) {
-	String result;
-	char buffer[DEFAULT_BUFFER_LENGTH] = {0};
-	const int length = snprintf(buffer, sizeof(buffer), format.toCharPointer(), value);
-	if (length > 0) {
-		result = String(buffer, length);
-	}
-	return result;
+	return printNumber(format.toCharPointer(), value);
 }
 
 String String::print(const String &format, string value) {
-- 
2.43.0


From d38d4380e74f10b6d26b2c6f944de9553212d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:46 +0000
Subject: [PATCH 125/127] fix: Vector refuses a negative capacity and an index
 outside a const vector with IllegalArgumentException

---
 library/Java/Util/Vector/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/Java/Util/Vector/Vector.hpp b/library/Java/Util/Vector/Vector.hpp
index 6216d00..8fb4aa1 100755
--- a/library/Java/Util/Vector/Vector.hpp
+++ b/library/Java/Util/Vector/Vector.hpp
@@ -77,7 +77,7 @@ namespace Java {
              */
             Vector(int initialCapacity, int capacityIncrement) {
                 if (initialCapacity < 0) {
-                    throw std::invalid_argument("initial capacity is negative");
+                    throw IllegalArgumentException("initial capacity is negative");
                 }
                 this->original.reserve(initialCapacity);
                 this->capacityIncrement = capacityIncrement;
@@ -881,7 +881,7 @@ namespace Java {
 
             const E &operator[](const int index) const {
                 if (index < 0 || index >= this->original.size()) {
-                    throw std::invalid_argument("index is out of range");
+                    throw IllegalArgumentException("index is out of range");
                 }
                 const E *vectorData = this->original.data();
                 return *(vectorData + index);
-- 
2.43.0


From c3c3dd6511b243a06a934bba1631a22e7049c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:04 +0000
Subject: [PATCH 126/127] fix: ArrayList.removeRange refuses a range outside
 the list with IndexOutOfBoundsException

---
 library/Java/Util/ArrayList/ArrayList.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/Java/Util/ArrayList/ArrayList.hpp b/library/Java/Util/ArrayList/ArrayList.hpp
index 33e86ca..a0359ad 100755
--- a/library/Java/Util/ArrayList/ArrayList.hpp
+++ b/library/Java/Util/ArrayList/ArrayList.hpp
@@ -611,6 +611,9 @@ namespace Java {
 			 * @param toIndex
 			 */
 			void removeRange(int fromIndex, int toIndex) {
+				if (fromIndex < 0 || fromIndex > toIndex || toIndex > this->size()) {
+					throw IndexOutOfBoundsException("Index out of range");
+				}
 				this->original.erase(this->original.begin() + fromIndex,
 				                     this->original.begin() + toIndex);
 			}
-- 
2.43.0


From 4bf008c0a12c303a15d26bc0108b18d63cd2eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:40 +0000
Subject: [PATCH 127/127] fix: Date parses two-digit years without a buffer
 shared by all threads

---
 library/Java/Util/Date/Date.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/Java/Util/Date/Date.cpp b/library/Java/Util/Date/Date.cpp
index ec1718a..40f7000 100755
--- a/library/Java/Util/Date/Date.cpp
+++ b/library/Java/Util/Date/Date.cpp
@@ -383,10 +383,10 @@ long Date::parse(String inputString) {
     if (year < 100) {
         auto now = std::chrono::system_clock::now();
         std::time_t now_c = std::chrono::system_clock::to_time_t(now);
-        struct tm *currentTime = std::localtime(&now_c);
+        struct tm currentTime;
+        localtime_r(&now_c, &currentTime);
 
-        currentTime->tm_year += 1900;
-        int defaultCenturyStart = currentTime->tm_year - 80;
+        int defaultCenturyStart = currentTime.tm_year + 1900 - 80;
         year += (defaultCenturyStart / 100) * 100;
 
         if (year < defaultCenturyStart) {
-- 
2.43.0

