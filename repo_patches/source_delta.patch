From 16d83aa45fb35ce25f866bfb1f6ca0b151263e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 01/97] fix: Array::Clear and CopyTo reject ranges outside the
 array

The range check built its exception objects without throwing them, so a bad
range wrote outside the array storage.
---
 DotNetLibrary/src/Array.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 1709b9d..db06742 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -338,13 +338,13 @@ namespace DotnetLibrary
 	}
 	void Array::VerifyIndexWithinRangeOfArray(Array* array, Int32 startingIndex, Int32 amountOfElements) {
 		if (array == nullptr)
-			new ArgumentNullException();
+			throw new ArgumentNullException();
 		array->EnsureSingleDimension();
 		if (amountOfElements < 0)
-			new ArgumentNullException();
+			throw new IndexOutOfRangeException();
 		if (startingIndex < 0)
-			new ArgumentNullException();
-		if ((startingIndex + amountOfElements) > array->dimension1Size)
-			new ArgumentNullException();
+			throw new IndexOutOfRangeException();
+		if (startingIndex > array->dimension1Size - amountOfElements)
+			throw new IndexOutOfRangeException();
 	}
 }
-- 
2.43.0


From 0b4c9979951d8c8ab79be061c3724b7228dc2db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 02/97] fix: an Array wrapping caller memory no longer frees
 that memory

---
 DotNetLibrary/include/Array.h | 1 +
 DotNetLibrary/src/Array.cpp   | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/include/Array.h b/DotNetLibrary/include/Array.h
index 8abf5ec..4a3f4d0 100644
--- a/DotNetLibrary/include/Array.h
+++ b/DotNetLibrary/include/Array.h
@@ -34,6 +34,7 @@ namespace DotnetLibrary
 		int32_t dimensionCount;			// amount of dimensions
 		int32_t totalElementCount;		// total elements in the array
 		char* data;						// point to data storage for array
+		bool ownsData;					// true if the storage was allocated by this array
 		/*!
 		 * Compute index into 1d array from 3d indexes
 		 * @param index1 index to 1st dimension
diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index db06742..65e55ec 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -43,10 +43,12 @@ namespace DotnetLibrary
 	Array::Array(void* dataMemory, DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = (char*) dataMemory;
+		ownsData = false;
 	}
 	Array::Array(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
 		data = new char[totalElementCount * DataTypeSize[dataType]];
+		ownsData = true;
 	}
 	void Array::InitializeData(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		this->dataType = dataType;
@@ -65,8 +67,8 @@ namespace DotnetLibrary
 		}
 	}
 	Array::~Array() {
-		if (data != nullptr)
-			delete data;
+		if (ownsData && data != nullptr)
+			delete[] data;
 		data = nullptr;
 	}
 	void* Array::Address(Int32 index1, Int32 index2, Int32 index3) {
-- 
2.43.0


From 915cca9d9519ce728cd18631db430de103c0cb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 03/97] fix: Array::Copy range check no longer overflows for
 large indexes

---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 65e55ec..63ea02c 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -96,7 +96,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		if (sourceIndex < 0 || destinationIndex < 0)
 			throw new ArgumentException();
-		if (sourceIndex + length > sourceArray->totalElementCount || destinationIndex + length > destinationArray->totalElementCount)
+		if (sourceIndex > sourceArray->totalElementCount - length || destinationIndex > destinationArray->totalElementCount - length)
 			throw new ArgumentException();
 		if (sourceArray->get_Rank() != destinationArray->get_Rank())
 			throw new RankException();
-- 
2.43.0


From 77e6334af43193e99f34dc241e91b7d85c7a3490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 04/97] fix: Array::Copy handles overlapping ranges of one
 array

---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 63ea02c..f855fe6 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -105,7 +105,7 @@ namespace DotnetLibrary
 		void* dstAddr = destinationArray->data + (destinationIndex * elementSize);
 		void* srcAddr = sourceArray->data + (sourceIndex * elementSize);
 		Int32 tsz = length * elementSize;
-		memcpy(dstAddr, srcAddr, tsz);
+		memmove(dstAddr, srcAddr, tsz);
 	}
 	void Array::CopyTo(Array* array, Int32 index) {
 		if (array == nullptr)
-- 
2.43.0


From 63d3ee9a4219db9c9907115ff4ac32533aaef956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 05/97] fix: Array::GetLength, GetLowerBound and GetUpperBound
 reject bad dimensions

---
 DotNetLibrary/src/Array.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index f855fe6..bd17a46 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -147,7 +147,7 @@ namespace DotnetLibrary
 			throw new RankException();
 	}
 	Int32 Array::GetLength(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		if (rank == 0)
 			return (dimension1Size);
@@ -158,12 +158,12 @@ namespace DotnetLibrary
 		return (-1);
 	}
 	Int32 Array::GetLowerBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (0);
 	}
 	Int32 Array::GetUpperBound(Int32 rank) {
-		if (rank > dimensionCount)
+		if (rank < 0 || rank >= dimensionCount)
 			throw new IndexOutOfRangeException();
 		return (GetLength(rank) - 1);
 	}
-- 
2.43.0


From 2be3bc1cff15322e945dc00f865461624a7a0462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 06/97] fix: Array::IndexOf checks the start index before using
 it

---
 DotNetLibrary/src/Array.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index bd17a46..90943c3 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -230,12 +230,12 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (array->get_Rank() != 1)
 			throw new RankException();
-		if (count < 0) {
-			count = array->get_Length() - startIndex;
-		}
 		Int32 lb = array->GetLowerBound(0);
 		if (startIndex < lb || startIndex > array->get_Length() + lb)
 			throw new ArgumentOutOfRangeException();
+		if (count < 0) {
+			count = array->get_Length() - startIndex;
+		}
 		if (count < 0 || count > array->get_Length() - startIndex + lb)
 			throw new ArgumentOutOfRangeException();
 		if (array->GetElementType() != ObjectType && array->GetElementType() != StringType)
-- 
2.43.0


From 36022929b64f16da1b20fe2a00004f26d603aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 07/97] fix: Array rejects negative and overflowing sizes

A product of dimensions that wrapped around gave storage smaller than the
index range accepted by Address.
---
 DotNetLibrary/src/Array.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 90943c3..0850722 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -47,24 +47,31 @@ namespace DotnetLibrary
 	}
 	Array::Array(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
 		InitializeData(dataType, dimension1Size, dimension2Size, dimension3Size);
-		data = new char[totalElementCount * DataTypeSize[dataType]];
+		data = new char[(size_t) totalElementCount * DataTypeSize[dataType]];
 		ownsData = true;
 	}
 	void Array::InitializeData(DataType dataType, Int32 dimension1Size, Int32 dimension2Size, Int32 dimension3Size) {
+		if (dimension1Size < 0 || dimension2Size < -1 || dimension3Size < -1)
+			throw new OverflowException();
 		this->dataType = dataType;
 		this->dimension1Size = dimension1Size;
 		this->dimension2Size = dimension2Size;
 		this->dimension3Size = dimension3Size;
 		dimensionCount = 1;
-		totalElementCount = dimension1Size;
+		Int64 total = dimension1Size;
 		if (dimension2Size != -1) {
 			++dimensionCount;
-			totalElementCount *= dimension2Size;
+			total *= dimension2Size;
 		}
+		if (total > INT32_MAX)
+			throw new OverflowException();
 		if (dimension3Size != -1) {
 			++dimensionCount;
-			totalElementCount *= dimension3Size;
+			total *= dimension3Size;
 		}
+		if (total > INT32_MAX)
+			throw new OverflowException();
+		totalElementCount = (Int32) total;
 	}
 	Array::~Array() {
 		if (ownsData && data != nullptr)
@@ -72,7 +79,7 @@ namespace DotnetLibrary
 		data = nullptr;
 	}
 	void* Array::Address(Int32 index1, Int32 index2, Int32 index3) {
-		return &((char*) data)[ComputeIndex(index1, index2, index3) * DataTypeSize[dataType]];
+		return &((char*) data)[(size_t) ComputeIndex(index1, index2, index3) * DataTypeSize[dataType]];
 	}
 	void Array::Clear(Array* array, Int32 startingIndex, Int32 amount) {
 		if (array == nullptr)
@@ -80,7 +87,7 @@ namespace DotnetLibrary
 		array->EnsureSingleDimension();
 		Int32 elementSize = DataTypeSize[array->dataType];
 		VerifyIndexWithinRangeOfArray(array, startingIndex, amount);
-		memset((char*) array->data + (startingIndex * elementSize), 0, (amount * elementSize));
+		memset((char*) array->data + ((size_t) startingIndex * elementSize), 0, ((size_t) amount * elementSize));
 	}
 	void Array::ConstrainedCopy(Array* sourceArray, Int32 sourceIndex, Array* destinationArray, Int32 destinationIndex, Int32 length) {
 		Copy(sourceArray, sourceIndex, destinationArray, destinationIndex, length);
@@ -102,9 +109,9 @@ namespace DotnetLibrary
 			throw new RankException();
 		if (sourceArray->dataType != destinationArray->dataType)
 			throw new NotImplementedException();
-		void* dstAddr = destinationArray->data + (destinationIndex * elementSize);
-		void* srcAddr = sourceArray->data + (sourceIndex * elementSize);
-		Int32 tsz = length * elementSize;
+		void* dstAddr = destinationArray->data + ((size_t) destinationIndex * elementSize);
+		void* srcAddr = sourceArray->data + ((size_t) sourceIndex * elementSize);
+		size_t tsz = (size_t) length * elementSize;
 		memmove(dstAddr, srcAddr, tsz);
 	}
 	void Array::CopyTo(Array* array, Int32 index) {
@@ -261,7 +268,7 @@ namespace DotnetLibrary
 		return (dimensionCount);
 	}
 	Array* Array::Initialize(void* initialData) {
-		Int32 amountToCopy = totalElementCount * DataTypeSize[dataType];
+		size_t amountToCopy = (size_t) totalElementCount * DataTypeSize[dataType];
 		memcpy(data, initialData, amountToCopy);
 		return (this);
 	}
-- 
2.43.0


From e5a9b885191ff37d82ab8ef1ad1bdc12dd216909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 08/97] fix: CompareTo of 32 and 64 bit integers orders all
 values

The difference of the operands overflowed or was truncated to 32 bits, so the
sign was wrong for distant operands.
---
 DotNetLibrary/src/Int32Value.cpp  | 4 ++--
 DotNetLibrary/src/Int64Value.cpp  | 4 ++--
 DotNetLibrary/src/UInt32Value.cpp | 4 ++--
 DotNetLibrary/src/UInt64Value.cpp | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 0842810..b4f3c2a 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int32Value::CompareTo(Int32 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : (value > valueToCompare ? 1 : 0);
 	}
 	Int32 Int32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int32Value*) valueToCompare)->value;
+		return CompareTo(((Int32Value*) valueToCompare)->value);
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != Int32Type) {
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 8390042..6e8658a 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 Int64Value::CompareTo(Int64 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : (value > valueToCompare ? 1 : 0);
 	}
 	Int32 Int64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != Int64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((Int64Value*) valueToCompare)->value;
+		return CompareTo(((Int64Value*) valueToCompare)->value);
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != Int64Type) {
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index a1aebf7..e743d6c 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt32Value::CompareTo(UInt32 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : (value > valueToCompare ? 1 : 0);
 	}
 	Int32 UInt32Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt32Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt32Value*) valueToCompare)->value;
+		return CompareTo(((UInt32Value*) valueToCompare)->value);
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != UInt32Type) {
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index d94cd1e..4a2d4c8 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -60,7 +60,7 @@ namespace DotnetLibrary
 		return (Double) value;
 	}
 	Int32 UInt64Value::CompareTo(UInt64 valueToCompare) {
-		return value - valueToCompare;
+		return value < valueToCompare ? -1 : (value > valueToCompare ? 1 : 0);
 	}
 	Int32 UInt64Value::CompareTo(Object* valueToCompare) {
 		if (valueToCompare == nullptr) {
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 		if (valueToCompare->GetRawDataType() != UInt64Type) {
 			throw new ArgumentException();
 		}
-		return value - ((UInt64Value*) valueToCompare)->value;
+		return CompareTo(((UInt64Value*) valueToCompare)->value);
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
 		if (valueToCompare->GetRawDataType() != UInt64Type) {
-- 
2.43.0


From 81aa88a9d7e1aff62691dbe1fafbc0164695fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 09/97] fix: integer and Char Equals(Object*) return false for
 null

---
 DotNetLibrary/src/ByteValue.cpp   | 2 +-
 DotNetLibrary/src/CharValue.cpp   | 2 +-
 DotNetLibrary/src/Int16Value.cpp  | 2 +-
 DotNetLibrary/src/Int32Value.cpp  | 2 +-
 DotNetLibrary/src/Int64Value.cpp  | 2 +-
 DotNetLibrary/src/SByteValue.cpp  | 2 +-
 DotNetLibrary/src/UInt16Value.cpp | 2 +-
 DotNetLibrary/src/UInt32Value.cpp | 2 +-
 DotNetLibrary/src/UInt64Value.cpp | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index 1ae217b..f4a13ba 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -70,7 +70,7 @@ namespace DotnetLibrary
 		return value - ((ByteValue*) valueToCompare)->value;
 	}
 	Boolean ByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != ByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != ByteType) {
 			return false;
 		}
 		return value == ((ByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index 54ee3d7..fe95949 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -68,7 +68,7 @@ namespace DotnetLibrary
 		return value - ((CharValue*) valueToCompare)->value;
 	}
 	bool CharValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != CharType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != CharType) {
 			return false;
 		}
 		return value == ((CharValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index 3fee63f..fdea7b4 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -71,7 +71,7 @@ namespace DotnetLibrary
 		return value - ((Int16Value*) valueToCompare)->value;
 	}
 	bool Int16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int16Type) {
 			return false;
 		}
 		return value == ((Int16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index b4f3c2a..0d6b32e 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return CompareTo(((Int32Value*) valueToCompare)->value);
 	}
 	bool Int32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int32Type) {
 			return false;
 		}
 		return value == ((Int32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 6e8658a..f495656 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return CompareTo(((Int64Value*) valueToCompare)->value);
 	}
 	bool Int64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != Int64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != Int64Type) {
 			return false;
 		}
 		return value == ((Int64Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index ad69a9b..c983f7f 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((SByteValue*) valueToCompare)->value;
 	}
 	bool SByteValue::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != SByteType) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != SByteType) {
 			return false;
 		}
 		return value == ((SByteValue*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index aa9bf35..31819dc 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return value - ((UInt16Value*) valueToCompare)->value;
 	}
 	bool UInt16Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt16Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt16Type) {
 			return false;
 		}
 		return value == ((UInt16Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index e743d6c..b5b3113 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return CompareTo(((UInt32Value*) valueToCompare)->value);
 	}
 	bool UInt32Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt32Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt32Type) {
 			return false;
 		}
 		return value == ((UInt32Value*) valueToCompare)->value;
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 4a2d4c8..7ba0940 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -72,7 +72,7 @@ namespace DotnetLibrary
 		return CompareTo(((UInt64Value*) valueToCompare)->value);
 	}
 	bool UInt64Value::Equals(Object* valueToCompare) {
-		if (valueToCompare->GetRawDataType() != UInt64Type) {
+		if (valueToCompare == nullptr || valueToCompare->GetRawDataType() != UInt64Type) {
 			return false;
 		}
 		return value == ((UInt64Value*) valueToCompare)->value;
-- 
2.43.0


From dcd8085c930f741fa03fc6958fde94e762e890dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 10/97] fix: SByte, Int16 and Int32 parsing detect values below
 the minimum

---
 DotNetLibrary/src/Int16Value.cpp | 12 ++++++------
 DotNetLibrary/src/Int32Value.cpp | 12 ++++++------
 DotNetLibrary/src/SByteValue.cpp | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index fdea7b4..bed3df1 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -91,11 +91,11 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (sign > 0 && value > MaxValue)
+		if (sign > 0 && value > (UInt64) MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((Int16) value * sign);
+		return ((Int16) (sign < 0 ? 0 - value : value));
 	}
 	bool Int16Value::TryParse(String* stringToParse, Int16& result) {
 		Boolean goodNumber = true;
@@ -103,11 +103,11 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign > 0 && value > MaxValue)
+		if (sign > 0 && value > (UInt64) MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int16) value * sign;
+		result = (Int16) (sign < 0 ? 0 - value : value);
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 0d6b32e..8b87987 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -92,11 +92,11 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (sign > 0 && value > MaxValue)
+		if (sign > 0 && value > (UInt64) MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((Int32) value * sign);
+		return ((Int32) (sign < 0 ? 0 - value : value));
 	}
 	bool Int32Value::TryParse(String* stringToParse, Int32& result) {
 		Boolean goodNumber = true;
@@ -104,11 +104,11 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign > 0 && value > MaxValue)
+		if (sign > 0 && value > (UInt64) MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int32) value * sign;
+		result = (Int32) (sign < 0 ? 0 - value : value);
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index c983f7f..2443603 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -92,11 +92,11 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (sign > 0 && value > MaxValue)
+		if (sign > 0 && value > (UInt64) MaxValue)
 			throw new OverflowException();
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			throw new OverflowException();
-		return ((SByte) value * sign);
+		return ((SByte) (sign < 0 ? 0 - value : value));
 	}
 	bool SByteValue::TryParse(String* stringToParse, SByte& result) {
 		Boolean goodNumber = true;
@@ -104,11 +104,11 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		if (sign > 0 && value > MaxValue)
+		if (sign > 0 && value > (UInt64) MaxValue)
 			goodNumber = false;
-		if (sign < 0 && (Int64) value < MinValue)
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (SByte) value * sign;
+		result = (SByte) (sign < 0 ? 0 - value : value);
 		return (goodNumber);
 	}
 }
-- 
2.43.0


From 2e8b776056baff05a8394426c43c6446eb4f41a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 11/97] fix: UInt16, UInt32 and UInt64 Parse report negative
 numbers as overflow

---
 DotNetLibrary/src/UInt16Value.cpp | 2 +-
 DotNetLibrary/src/UInt32Value.cpp | 2 +-
 DotNetLibrary/src/UInt64Value.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index 31819dc..c89b969 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -92,7 +92,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if (sign < 0 || value > MaxValue)
 			throw new OverflowException();
 		return ((UInt16) value * sign);
 	}
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index b5b3113..ef732a7 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -92,7 +92,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if (sign < 0 || value > MaxValue)
 			throw new OverflowException();
 		return ((UInt32) value * sign);
 	}
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 7ba0940..b5c949c 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -92,7 +92,7 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		if (value > MaxValue)
+		if (sign < 0 || value > MaxValue)
 			throw new OverflowException();
 		return ((UInt64) value);
 	}
-- 
2.43.0


From 7f1db25083b10443821f6244431fffa9d66b6cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 12/97] fix: integer parsing rejects text that follows trailing
 white space

---
 DotNetLibrary/src/UInt64Value.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index b5c949c..7820142 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -141,7 +141,13 @@ namespace DotnetLibrary
 			--sourceLength;
 			gotNumber = true;
 		}
-		if (sourceLength > 0 && !CharValue::IsWhiteSpace(*source))
+		while (*source != 0 && sourceLength > 0) {
+			if (!CharValue::IsWhiteSpace(*source))
+				break;
+			++source;
+			--sourceLength;
+		}
+		if (sourceLength > 0)
 			gotNumber = false;
 		return (gotNumber);
 	}
-- 
2.43.0


From dac1f61358ff6bd517437038b4644cfbcc673533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 13/97] fix: integer parsing detects numbers that do not fit in
 64 bits

Longer digit strings wrapped around and were accepted as some other number.
---
 DotNetLibrary/include/UInt64Value.h | 10 ++++++----
 DotNetLibrary/src/Int64Value.cpp    | 12 ++++++++++--
 DotNetLibrary/src/UInt64Value.cpp   | 26 ++++++++++++++++++--------
 3 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/DotNetLibrary/include/UInt64Value.h b/DotNetLibrary/include/UInt64Value.h
index 4460209..e327d51 100644
--- a/DotNetLibrary/include/UInt64Value.h
+++ b/DotNetLibrary/include/UInt64Value.h
@@ -154,20 +154,22 @@ namespace DotnetLibrary
 		/*!
 		 * Try parse internal
 		 * @param source of text
-		 * @param result of parse
+		 * @param result of parse, the maximum value if the number is too big
 		 * @param sign sign of value
+		 * @param overflow set to true if the number is too big, may be null
 		 * @return true if good parse
 		 */
-		static Boolean TryParseInternal(String* source, UInt64& result, Int32& sign);
+		static Boolean TryParseInternal(String* source, UInt64& result, Int32& sign, Boolean* overflow = nullptr);
 		/*!
 		 * Try parse internal
 		 * @param source of text
 		 * @param sourceLength length of text
-		 * @param result of parse
+		 * @param result of parse, the maximum value if the number is too big
 		 * @param sign sign of value
+		 * @param overflow set to true if the number is too big, may be null
 		 * @return true if good parse
 		 */
-		static Boolean TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign);
+		static Boolean TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign, Boolean* overflow = nullptr);
 		/*!
 		 * Max value
 		 */
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index f495656..7a7e988 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -92,7 +92,11 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			throw new FormatException();
-		return ((Int64) value * sign);
+		if (sign > 0 && value > (UInt64) MaxValue)
+			throw new OverflowException();
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
+			throw new OverflowException();
+		return ((Int64) (sign < 0 ? 0 - value : value));
 	}
 	bool Int64Value::TryParse(String* stringToParse, Int64& result) {
 		Boolean goodNumber = true;
@@ -100,7 +104,11 @@ namespace DotnetLibrary
 		Int32 sign = 0;
 		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
-		result = (Int64) value * sign;
+		if (sign > 0 && value > (UInt64) MaxValue)
+			goodNumber = false;
+		if (sign < 0 && value > (UInt64) MaxValue + 1)
+			goodNumber = false;
+		result = (Int64) (sign < 0 ? 0 - value : value);
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 7820142..a6da5a8 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -90,9 +90,10 @@ namespace DotnetLibrary
 	UInt64 UInt64Value::Parse(String* stringToParse) {
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		Boolean overflow = false;
+		if (!UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			throw new FormatException();
-		if (sign < 0 || value > MaxValue)
+		if (sign < 0 || overflow)
 			throw new OverflowException();
 		return ((UInt64) value);
 	}
@@ -100,22 +101,24 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		Boolean overflow = false;
+		if (!UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			goodNumber = false;
-		if (sign < 0 || value > MaxValue)
+		if (sign < 0 || overflow)
 			goodNumber = false;
 		result = (UInt64) value;
 		return (goodNumber);
 	}
-	Boolean UInt64Value::TryParseInternal(String* source, UInt64& result, Int32& sign) {
+	Boolean UInt64Value::TryParseInternal(String* source, UInt64& result, Int32& sign, Boolean* overflow) {
 		if (source == nullptr)
 			throw new ArgumentNullException();
-		return (TryParseInternal(source->get_Buffer(), source->get_Length(), result, sign));
+		return (TryParseInternal(source->get_Buffer(), source->get_Length(), result, sign, overflow));
 	}
-	Boolean UInt64Value::TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign) {
+	Boolean UInt64Value::TryParseInternal(Char* source, Int32 sourceLength, UInt64& result, Int32& sign, Boolean* overflow) {
 		result = 0;
 		sign = 1;
 		Boolean gotNumber = false;
+		Boolean tooBig = false;
 		while (*source != 0 && sourceLength > 0) {
 			if (!CharValue::IsWhiteSpace(*source))
 				break;
@@ -136,7 +139,10 @@ namespace DotnetLibrary
 		while (*source != 0 && sourceLength > 0) {
 			if (!CharValue::IsDigit(*source))
 				break;
-			result = 10 * result + *source - '0';
+			UInt64 digit = (UInt64) (*source - '0');
+			if (result > (MaxValue - digit) / 10)
+				tooBig = true;
+			result = 10 * result + digit;
 			++source;
 			--sourceLength;
 			gotNumber = true;
@@ -149,6 +155,10 @@ namespace DotnetLibrary
 		}
 		if (sourceLength > 0)
 			gotNumber = false;
+		if (tooBig)
+			result = MaxValue;
+		if (overflow != nullptr)
+			*overflow = tooBig;
 		return (gotNumber);
 	}
 }
-- 
2.43.0


From 708ec8a27e6329f500956122936b388eb78bd1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 14/97] fix: integer TryParse returns false for null and gives
 0 when it fails

---
 DotNetLibrary/src/ByteValue.cpp   | 4 ++--
 DotNetLibrary/src/Int16Value.cpp  | 4 ++--
 DotNetLibrary/src/Int32Value.cpp  | 4 ++--
 DotNetLibrary/src/Int64Value.cpp  | 4 ++--
 DotNetLibrary/src/SByteValue.cpp  | 4 ++--
 DotNetLibrary/src/UInt16Value.cpp | 4 ++--
 DotNetLibrary/src/UInt32Value.cpp | 4 ++--
 DotNetLibrary/src/UInt64Value.cpp | 4 ++--
 8 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/DotNetLibrary/src/ByteValue.cpp b/DotNetLibrary/src/ByteValue.cpp
index f4a13ba..4f9894b 100644
--- a/DotNetLibrary/src/ByteValue.cpp
+++ b/DotNetLibrary/src/ByteValue.cpp
@@ -98,11 +98,11 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign < 0 || value > MaxValue)
 			goodNumber = false;
-		result = (Byte) value;
+		result = goodNumber ? (Byte) value : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int16Value.cpp b/DotNetLibrary/src/Int16Value.cpp
index bed3df1..f4a78cc 100644
--- a/DotNetLibrary/src/Int16Value.cpp
+++ b/DotNetLibrary/src/Int16Value.cpp
@@ -101,13 +101,13 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign > 0 && value > (UInt64) MaxValue)
 			goodNumber = false;
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int16) (sign < 0 ? 0 - value : value);
+		result = goodNumber ? (Int16) (sign < 0 ? 0 - value : value) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int32Value.cpp b/DotNetLibrary/src/Int32Value.cpp
index 8b87987..fe1843e 100644
--- a/DotNetLibrary/src/Int32Value.cpp
+++ b/DotNetLibrary/src/Int32Value.cpp
@@ -102,13 +102,13 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign > 0 && value > (UInt64) MaxValue)
 			goodNumber = false;
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int32) (sign < 0 ? 0 - value : value);
+		result = goodNumber ? (Int32) (sign < 0 ? 0 - value : value) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/Int64Value.cpp b/DotNetLibrary/src/Int64Value.cpp
index 7a7e988..03ce195 100644
--- a/DotNetLibrary/src/Int64Value.cpp
+++ b/DotNetLibrary/src/Int64Value.cpp
@@ -102,13 +102,13 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign > 0 && value > (UInt64) MaxValue)
 			goodNumber = false;
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (Int64) (sign < 0 ? 0 - value : value);
+		result = goodNumber ? (Int64) (sign < 0 ? 0 - value : value) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SByteValue.cpp b/DotNetLibrary/src/SByteValue.cpp
index 2443603..9091155 100644
--- a/DotNetLibrary/src/SByteValue.cpp
+++ b/DotNetLibrary/src/SByteValue.cpp
@@ -102,13 +102,13 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign > 0 && value > (UInt64) MaxValue)
 			goodNumber = false;
 		if (sign < 0 && value > (UInt64) MaxValue + 1)
 			goodNumber = false;
-		result = (SByte) (sign < 0 ? 0 - value : value);
+		result = goodNumber ? (SByte) (sign < 0 ? 0 - value : value) : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt16Value.cpp b/DotNetLibrary/src/UInt16Value.cpp
index c89b969..f00b226 100644
--- a/DotNetLibrary/src/UInt16Value.cpp
+++ b/DotNetLibrary/src/UInt16Value.cpp
@@ -100,11 +100,11 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign < 0 || value > MaxValue)
 			goodNumber = false;
-		result = (UInt16) value;
+		result = goodNumber ? (UInt16) value : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt32Value.cpp b/DotNetLibrary/src/UInt32Value.cpp
index ef732a7..2353b4d 100644
--- a/DotNetLibrary/src/UInt32Value.cpp
+++ b/DotNetLibrary/src/UInt32Value.cpp
@@ -100,11 +100,11 @@ namespace DotnetLibrary
 		Boolean goodNumber = true;
 		UInt64 value = 0;
 		Int32 sign = 0;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign))
 			goodNumber = false;
 		if (sign < 0 || value > MaxValue)
 			goodNumber = false;
-		result = (UInt32) value;
+		result = goodNumber ? (UInt32) value : 0;
 		return (goodNumber);
 	}
 }
diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index a6da5a8..98454e3 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -102,11 +102,11 @@ namespace DotnetLibrary
 		UInt64 value = 0;
 		Int32 sign = 0;
 		Boolean overflow = false;
-		if (!UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
+		if (stringToParse == nullptr || !UInt64Value::TryParseInternal(stringToParse, value, sign, &overflow))
 			goodNumber = false;
 		if (sign < 0 || overflow)
 			goodNumber = false;
-		result = (UInt64) value;
+		result = goodNumber ? (UInt64) value : 0;
 		return (goodNumber);
 	}
 	Boolean UInt64Value::TryParseInternal(String* source, UInt64& result, Int32& sign, Boolean* overflow) {
-- 
2.43.0


From af2f732571a85ac8447912597d32c4fb41fd69a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 15/97] fix: Double and Single parsing reject text that is not
 a number

Parse returned an uninitialised value for such text and TryParse accepted
anything after a leading number.
---
 DotNetLibrary/src/DoubleValue.cpp | 19 +++++++++++++++----
 DotNetLibrary/src/SingleValue.cpp | 19 +++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 4cf23b1..00efe49 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -137,14 +137,18 @@ namespace DotnetLibrary
 	}
 	Double DoubleValue::Parse(String* stringToParse) {
 		Double rtn;
-		swscanf(stringToParse->get_Buffer(), L"%lG", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean DoubleValue::TryParse(String* source, Double& result) {
 		Boolean goodNumber = true;
 		Double value = 0;
 		if (source == nullptr)
+		{
+			result = 0;
 			return (false);
+		}
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
 		result = value;
 		return (goodNumber);
@@ -163,9 +167,16 @@ namespace DotnetLibrary
 			++source;
 			--sourceLength;
 		}
-		Double rtn;
-		gotNumber = swscanf(source, L"%lG", &rtn) == 1;
-		result = rtn;
+		Double rtn = 0;
+		int consumed = 0;
+		gotNumber = swscanf(source, L"%lG%n", &rtn, &consumed) == 1;
+		if (gotNumber) {
+			for (source += consumed; *source != 0; ++source) {
+				if (!CharValue::IsWhiteSpace(*source))
+					gotNumber = false;
+			}
+		}
+		result = gotNumber ? rtn : 0;
 		return (gotNumber);
 	}
 }
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 124ea53..755a850 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -144,14 +144,18 @@ namespace DotnetLibrary
 	}
 	Single SingleValue::Parse(String* stringToParse) {
 		Single rtn;
-		swscanf(stringToParse->get_Buffer(), L"%G", &rtn);
+		if (!TryParseInternal(stringToParse, rtn))
+			throw new FormatException();
 		return (rtn);
 	}
 	Boolean SingleValue::TryParse(String* source, Single& result) {
 		Boolean goodNumber = true;
 		Single value = 0;
 		if (source == nullptr)
+		{
+			result = 0;
 			return (false);
+		}
 		goodNumber = TryParseInternal(source->get_Buffer(), source->get_Length(), value);
 		result = value;
 		return (goodNumber);
@@ -170,9 +174,16 @@ namespace DotnetLibrary
 			++source;
 			--sourceLength;
 		}
-		Single rtn;
-		gotNumber = swscanf(source, L"%G", &rtn) == 1;
-		result = rtn;
+		Single rtn = 0;
+		int consumed = 0;
+		gotNumber = swscanf(source, L"%G%n", &rtn, &consumed) == 1;
+		if (gotNumber) {
+			for (source += consumed; *source != 0; ++source) {
+				if (!CharValue::IsWhiteSpace(*source))
+					gotNumber = false;
+			}
+		}
+		result = gotNumber ? rtn : 0;
 		return (gotNumber);
 	}
 	Single SingleValue::ToSingle(UInt32 v) {
-- 
2.43.0


From a3b4730ff0a32c0b11214578462f94abc62d71c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 16/97] fix: Double.MaxValue and MinValue are the extreme
 finite values

---
 DotNetLibrary/src/DoubleValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 00efe49..4628eb3 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -22,8 +22,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT Double DoubleValue::MaxValue = 1.797693134862315E+308;
-	DLL_EXPORT Double DoubleValue::MinValue = -1.797693134862315E+308;
+	DLL_EXPORT Double DoubleValue::MaxValue = 1.7976931348623157E+308;
+	DLL_EXPORT Double DoubleValue::MinValue = -1.7976931348623157E+308;
 	DLL_EXPORT Double DoubleValue::Epsilon = 4.94065645841247E-324;
 	DLL_EXPORT Double DoubleValue::NaN = NAN;
 	DLL_EXPORT Double DoubleValue::PositiveInfinity = INFINITY;
-- 
2.43.0


From 4ad7052c06daca700b97d1d74cb048b1869d9f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 17/97] fix: Math.PI and Math.E carry full double precision

---
 DotNetLibrary/src/DotNetMath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 49624bd..cf85ff6 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -19,8 +19,8 @@
 #include <math.h>
 namespace DotnetLibrary
 {
-	DLL_EXPORT Double Math::PI = 3.14159265358979;
-	DLL_EXPORT Double Math::E = 2.71828182845905;
+	DLL_EXPORT Double Math::PI = 3.14159265358979323846;
+	DLL_EXPORT Double Math::E = 2.71828182845904523536;
 	const UInt64 ExponentMask = 0x7FF0000000000000;
 	const Int32 ExponentShift = 52;
 	const Int32 ShiftedExponentMask = (Int32) (ExponentMask >> ExponentShift);
-- 
2.43.0


From db443a4d99534b2f546682645869b4139b335186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 18/97] fix: Math.Abs of the smallest Int32 and Int64 is their
 magnitude

The negation overflowed and gave a negative result.
---
 DotNetLibrary/src/DotNetMath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index cf85ff6..5310dc0 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -37,10 +37,10 @@ namespace DotnetLibrary
 		return abs(v1);
 	}
 	Double Math::Abs(Int32 v1) {
-		return abs(v1);
+		return fabs((Double) v1);
 	}
 	Double Math::Abs(Int64 v1) {
-		return abs(v1);
+		return fabs((Double) v1);
 	}
 	Double Math::Abs(SByte v1) {
 		return abs(v1);
-- 
2.43.0


From 2def400b3d2e064460ce899c93b7bc4ee5b8ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 19/97] fix: integer division of the smallest value by -1
 throws OverflowException

The machine division trapped and killed the process.
---
 DotNetLibrary/src/DotNetMath.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 5310dc0..84070ce 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -256,6 +256,8 @@ namespace DotnetLibrary
 	Int64 Math::Divide(Int64 v1, Int64 v2) {
 		if (v2 == 0)
 			throw new DivideByZeroException();
+		if (v2 == -1 && v1 == INT64_MIN)
+			throw new OverflowException();
 		return v1 / v2;
 	}
 	Double Math::Divide(Double v1, Double v2) {
@@ -269,6 +271,8 @@ namespace DotnetLibrary
 	Int32 Math::DivRem(Int32 a, Int32 b, Int32& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
+		if (b == -1 && a == INT32_MIN)
+			throw new OverflowException();
 		Int32 div = a / b;
 		result = a - (div * b);
 		return div;
@@ -276,6 +280,8 @@ namespace DotnetLibrary
 	Int64 Math::DivRem(Int64 a, Int64 b, Int64& result) {
 		if (b == 0)
 			throw new DivideByZeroException();
+		if (b == -1 && a == INT64_MIN)
+			throw new OverflowException();
 		Int32 div = a / b;
 		result = a - (div * b);
 		return div;
-- 
2.43.0


From 5125d03aa3756b3ed39402628257de425b153f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 20/97] fix: Math.DivRem(Int64) keeps the full 64 bit quotient

---
 DotNetLibrary/src/DotNetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 84070ce..236c2c5 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -282,7 +282,7 @@ namespace DotnetLibrary
 			throw new DivideByZeroException();
 		if (b == -1 && a == INT64_MIN)
 			throw new OverflowException();
-		Int32 div = a / b;
+		Int64 div = a / b;
 		result = a - (div * b);
 		return div;
 	}
-- 
2.43.0


From 7e74da38513182b35226f50e302c7d14834f77a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 21/97] fix: Math.Divide by zero gives the infinity or NaN of
 the operands

---
 DotNetLibrary/src/DotNetMath.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 236c2c5..f67fb91 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -262,8 +262,10 @@ namespace DotnetLibrary
 	}
 	Double Math::Divide(Double v1, Double v2) {
 		if (v2 == 0) {
-			if (v1 == 0)
+			if (v1 == 0 || DoubleValue::IsNaN(v1))
 				return (DoubleValue::NaN);
+			if (DoubleValue::IsNegative(v1) != DoubleValue::IsNegative(v2))
+				return (DoubleValue::NegativeInfinity);
 			return (DoubleValue::PositiveInfinity);
 		}
 		return v1 / v2;
-- 
2.43.0


From 48e53e21e9d93e6e4fc70ae20edf8d3acb9fe5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 22/97] fix: Math.FusedMultiplyAdd rounds once

---
 DotNetLibrary/src/DotNetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index f67fb91..e4ce02c 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -301,7 +301,7 @@ namespace DotnetLibrary
 		return floor(v1);
 	}
 	Double Math::FusedMultiplyAdd(Double x, Double y, Double z) {
-		return (x * y) + z;
+		return fma(x, y, z);
 	}
 	Double Math::IEEERemainder(Double x, Double y) {
 		return remainder(x, y);
-- 
2.43.0


From c31bdb9ed4e2aef386b2d47fa01239b8a9d4183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 23/97] fix: Math.ILogB is defined for zero, infinity and NaN

---
 DotNetLibrary/src/DotNetMath.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index e4ce02c..ba897f1 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -307,7 +307,11 @@ namespace DotnetLibrary
 		return remainder(x, y);
 	}
 	Int32 Math::ILogB(Double x) {
-		return logb(x);
+		if (x == 0)
+			return Int32Value::MinValue;
+		if (!DoubleValue::IsFinite(x))
+			return Int32Value::MaxValue;
+		return ilogb(x);
 	}
 	Double Math::Log(Double v1) {
 		return log(v1);
-- 
2.43.0


From b7b8f217e420efdb28f046ff450ba4cc5ce520ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 24/97] fix: Math.Sign does not overflow on the smallest Int32
 and Int64

---
 DotNetLibrary/src/DotNetMath.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index ba897f1..37bb447 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -553,11 +553,11 @@ namespace DotnetLibrary
 	}
 
 	Int32 Math::Sign(Int32 value) {
-		return value >> 31 | (Int32) ((UInt32) -value >> 31);
+		return value >> 31 | (Int32) ((0 - (UInt32) value) >> 31);
 	}
 
 	Int32 Math::Sign(Int64 value) {
-		return (Int32) (value >> 63 | (long) ((UInt64) -value >> 63));
+		return (Int32) (value >> 63 | (Int64) ((0 - (UInt64) value) >> 63));
 	}
 
 	Int32 Math::Sign(SByte value) {
-- 
2.43.0


From 2084e5aaf3532e9322a5384dd2971c961e80803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 25/97] fix: Buffer.GetByte and SetByte reject negative indexes

---
 DotNetLibrary/src/Buffer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 32b0ad9..1c3402c 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -57,13 +57,15 @@ namespace DotnetLibrary
 	}
 	Byte Buffer::GetByte(Array* array, Int32 index) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		Int32 length = ByteLength(array);
+		if (index < 0 || index >= length)
 			throw new ArgumentOutOfRangeException();
 		return (*(((Byte*) array->Address(0)) + index));
 	}
 	void Buffer::SetByte(Array* array, Int32 index, Byte value) {
 		// array argument validation done via ByteLength
-		if (index >= ByteLength(array))
+		Int32 length = ByteLength(array);
+		if (index < 0 || index >= length)
 			throw new ArgumentOutOfRangeException();
 		*(((Byte*) array->Address(0)) + index) = value;
 	}
-- 
2.43.0


From a25be51fcb9a593049a40e6d3665a77a44c97590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 26/97] fix: Buffer.BlockCopy of nothing works on empty arrays
 and does not overflow

---
 DotNetLibrary/src/Buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 1c3402c..5a7e077 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -38,8 +38,10 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		UInt32 sourceLength = src->get_Length() * DataTypeSize[src->GetElementType()];
 		UInt32 destinationLength = dst->get_Length() * DataTypeSize[dst->GetElementType()];
-		if ((sourceLength < srcOffset + count) || (destinationLength < dstOffset + count))
+		if ((sourceLength < (UInt32) srcOffset + (UInt32) count) || (destinationLength < (UInt32) dstOffset + (UInt32) count))
 			throw new ArgumentException();
+		if (count == 0)
+			return;
 		memmove((Byte*) dst->Address(0) + dstOffset, (Byte*) src->Address(0) + srcOffset, count);
 	}
 	Int32 Buffer::ByteLength(Array* array) {
-- 
2.43.0


From 406306b9c73b4471bd5584f5b2ca97a598d3869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 27/97] fix: BitConverter.ToChar does not sign extend
 characters from 0x8000 up

---
 DotNetLibrary/src/BitConverter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index cda6db8..63e87bd 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -88,9 +88,9 @@ namespace DotnetLibrary
 		return false;
 	}
 	Char BitConverter::ToChar(Array* value, Int32 startIndex) {
-		Int16 ret;
-		// treat Char as Int16 because on some systems Char is 4 bytes but .Net isn't
-		PutBytes((Byte*) &ret, value, startIndex, sizeof(Int16));
+		UInt16 ret;
+		// treat Char as UInt16 because on some systems Char is 4 bytes but .Net isn't
+		PutBytes((Byte*) &ret, value, startIndex, sizeof(UInt16));
 		return (Char) ret;
 	}
 	Double BitConverter::ToDouble(Array* value, Int32 startIndex) {
-- 
2.43.0


From 33c7544a3bdffc58773f8b53fc6dbe9be053aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 28/97] fix: BitConverter.ToString checks the start index
 before using it

---
 DotNetLibrary/src/BitConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index 63e87bd..23504c8 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -136,14 +136,14 @@ namespace DotnetLibrary
 	String* BitConverter::ToString(Array* value, Int32 startIndex, Int32 length) {
 		if (value == nullptr)
 			throw new ArgumentNullException();
-		if (length == -1)
-			length = value->get_Length() - startIndex;
 		if (startIndex < 0 || startIndex >= value->get_Length()) {
 			// special (but valid) case (e.g. new byte [0])
 			if ((startIndex == 0) && (value->get_Length() == 0))
 				return String::Empty;
 			throw new ArgumentOutOfRangeException();
 		}
+		if (length == -1)
+			length = value->get_Length() - startIndex;
 		if (length < 0)
 			throw new ArgumentOutOfRangeException();
 		// note: re-ordered to avoid possible integer overflow
-- 
2.43.0


From 0a0f06f545fa05a4e54e74da70539ee518f64afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 29/97] fix: StringBuilder.Append(Char, count) makes room
 behind the current text

Only the repeat count was reserved, so appending to a nearly full builder
wrote past the end of its buffer.
---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index e46c273..aebcd9d 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -262,7 +262,7 @@ namespace DotnetLibrary
 		if (repeatCount < 0) {
 			throw new ArgumentOutOfRangeException();
 		}
-		EnsureCapacity(repeatCount);
+		EnsureRoomFor(repeatCount);
 		for (int i = 0; i < repeatCount; ++i) {
 			chunkChars[currentLength++] = value;
 		}
-- 
2.43.0


From c129a57d8a6251eff9887a14339ec1ff1d27eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 30/97] fix: StringBuilder.Remove moves overlapping text safely

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index aebcd9d..bce73a6 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -340,7 +340,7 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		Int32 howmany = currentLength - startIndex - length;
-		memcpy(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
+		memmove(&chunkChars[startIndex], &chunkChars[startIndex + length], howmany * sizeof(Char));
 		currentLength -= length;
 		chunkChars[currentLength] = 0;
 		return this;
-- 
2.43.0


From b5e59fcb5df724dbcb48da5edba960de1d06b4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 31/97] fix: StringBuilder.set_Length pads with zero characters
 when it grows

Text left behind by an earlier Remove became visible again.
---
 DotNetLibrary/src/StringBuilder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index bce73a6..5122e00 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -97,7 +97,7 @@ namespace DotnetLibrary
 		}
 		if (newLength == 0) {
 			currentLength = 0;
-			memset(chunkChars, 0, currentCapacity * sizeof(Char));
+			chunkChars[0] = 0;
 			return;
 		}
 		EnsureCapacity(newLength);
@@ -108,7 +108,11 @@ namespace DotnetLibrary
 		if (delta < 0) {
 			memset(chunkChars + (currentLength + delta), 0, -delta * sizeof(Char));
 		}
+		else {
+			memset(chunkChars + currentLength, 0, delta * sizeof(Char));
+		}
 		currentLength = newLength;
+		chunkChars[currentLength] = 0;
 	}
 	Int32 StringBuilder::get_Capacity() {
 		return currentCapacity;
-- 
2.43.0


From 0b2d6ec0bb47fccc84e6564b44daf64b18cff27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 32/97] fix: StringBuilder.set_Capacity rejects a capacity
 below the length

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 5122e00..ea351d5 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -124,6 +124,9 @@ namespace DotnetLibrary
 		if (capacity > maxCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
+		if (capacity < currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		if (chunkChars != internalMemory && capacity < currentCapacity) {
 			throw new ArgumentOutOfRangeException();
 		}
-- 
2.43.0


From d84306e8d0f6ab4443a0ba3c031783912c22c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 33/97] fix: StringBuilder capacity is never rounded up beyond
 the maximum capacity

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index ea351d5..5f9bc02 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -137,9 +137,8 @@ namespace DotnetLibrary
 		Char* newArray = internalMemory;
 		if (capacity > DefaultCapacity) {
 			Int32 partial = capacity % DefaultCapacity;
-			capacity = (capacity / DefaultCapacity) * DefaultCapacity;
 			if (partial > 0)
-				capacity += DefaultCapacity;
+				capacity = DefaultCapacity - partial > maxCapacity - capacity ? maxCapacity : capacity + DefaultCapacity - partial;
 			newArray = new Char[capacity + 1];
 			memcpy(newArray, chunkChars, currentLength * sizeof(Char));
 			if (chunkChars != internalMemory)
-- 
2.43.0


From abd3edd24393232246a12ed01ebc282d9af936ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 34/97] fix: StringBuilder can be constructed from a null or
 empty string

This also made Contains, Insert, Remove and Replace fail on empty strings.
---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 5f9bc02..4822b6d 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -46,7 +46,7 @@ namespace DotnetLibrary
 		this->maxCapacity = maxCapacity;
 		set_Capacity(capacity);
 	}
-	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value->get_Length(), capacity) {
+	StringBuilder::StringBuilder(String* value, Int32 capacity) : StringBuilder(value, 0, value == nullptr ? 0 : value->get_Length(), capacity) {
 	}
 	StringBuilder::StringBuilder(String* value, Int32 startIndex, Int32 length, Int32 capacity) {
 		Initialize();
@@ -69,7 +69,7 @@ namespace DotnetLibrary
 			capacity = DefaultCapacity;
 		}
 		set_Capacity(Math::Max(capacity, length));
-		Char* sourcePtr = value->Address(startIndex);
+		Char* sourcePtr = value->get_Buffer() + startIndex;
 		memcpy(chunkChars, sourcePtr, length * sizeof(Char));
 		currentLength = length;
 	}
-- 
2.43.0


From 72be9b4070b45a05458585b72677ae567575559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 35/97] fix: StringBuilder.Append rejects negative positions
 and counts

---
 DotNetLibrary/src/StringBuilder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 4822b6d..09e5a71 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -195,9 +195,12 @@ namespace DotnetLibrary
 		if (where == -1) {
 			where = currentLength;
 		}
-		if (where > currentLength) {
+		if (where < 0 || where > currentLength) {
 			throw new IndexOutOfRangeException();
 		}
+		if (charCount < 0) {
+			throw new ArgumentOutOfRangeException();
+		}
 		EnsureRoomFor(charCount);
 		if (where != currentLength) {
 			memmove(&chunkChars[where + charCount], &chunkChars[where], (currentLength - where) * sizeof(Char));
-- 
2.43.0


From 4358c6e6697de1d0bb096fe111d2a76ea2a4a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 36/97] fix: StringBuilder.Insert validates its index and count
 and accepts empty text

An index of -1 appended, and an empty or null string failed.
---
 DotNetLibrary/include/StringBuilder.h |  1 +
 DotNetLibrary/src/StringBuilder.cpp   | 46 +++++++++++++++++++--------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/DotNetLibrary/include/StringBuilder.h b/DotNetLibrary/include/StringBuilder.h
index bf0d81a..cd518c5 100644
--- a/DotNetLibrary/include/StringBuilder.h
+++ b/DotNetLibrary/include/StringBuilder.h
@@ -31,6 +31,7 @@ namespace DotnetLibrary
 	class DLL_EXPORT StringBuilder: public Object
 	{
 	private:
+		StringBuilder* InsertValue(const Int32 index, ValueType& value);
 		Char internalMemory[DefaultCapacity + 1]; // default memory to prevent allocations
 		Char* chunkChars;		// array of characters
 		Int32 currentCapacity;	// total size of the array
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 09e5a71..f8b4eb7 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -356,15 +356,15 @@ namespace DotnetLibrary
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Boolean value) {
 		BooleanValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Byte value) {
 		ByteValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Char value) {
 		CharValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Array* values, Int32 startIndex, Int32 charCount) {
 		if (values == nullptr) {
@@ -386,52 +386,70 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		}
 		values->EnsureSingleDimension();
+		if (index < 0) {
+			throw new ArgumentOutOfRangeException();
+		}
 		return (Append((Char*) values->Address(startIndex), charCount, index));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Double value) {
 		DoubleValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Int16 value) {
 		Int16Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Int32 value) {
 		Int32Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Int64 value) {
 		Int64Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, Object* value) {
-		return (Insert(index, value->ToString()));
+		return (Insert(index, value == nullptr ? (String*) nullptr : value->ToString()));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, String* value, Int32 count) {
+		if (index < 0 || index > currentLength || count < 0) {
+			throw new ArgumentOutOfRangeException();
+		}
+		if (value == nullptr || value->get_Length() == 0) {
+			return (this);
+		}
+		if (count > (maxCapacity - currentLength) / value->get_Length()) {
+			throw new ArgumentOutOfRangeException();
+		}
 		for (int i = 0; i < count; ++i) {
-			Append((Char*) value->Address(0), value->get_Length(), index);
+			Append(value->get_Buffer(), value->get_Length(), index);
 		}
 		return (this);
 	}
+	StringBuilder* StringBuilder::InsertValue(const Int32 index, ValueType& value) {
+		if (index < 0) {
+			throw new ArgumentOutOfRangeException();
+		}
+		return (Append(value, index));
+	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const SByte value) {
 		SByteValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const Single value) {
 		SingleValue data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const UInt16 value) {
 		UInt16Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, UInt32 value) {
 		UInt32Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Insert(const Int32 index, const UInt64 value) {
 		UInt64Value data(value);
-		return (Append(data, index));
+		return (InsertValue(index, data));
 	}
 	StringBuilder* StringBuilder::Replace(const Char oldChar, const Char newChar) {
 		return Replace(oldChar, newChar, 0, currentLength);
-- 
2.43.0


From 0fafff9fc9c94ac16ace1209c0e7197cf674d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 37/97] fix: StringBuilder.Append of a null string or object
 appends nothing

---
 DotNetLibrary/src/StringBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index f8b4eb7..69c074f 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -262,6 +262,9 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::Append(Object* value) {
+		if (value == nullptr) {
+			return (this);
+		}
 		return (Append(value->ToString()));
 	}
 	StringBuilder* StringBuilder::Append(Char value) {
@@ -279,6 +282,9 @@ namespace DotnetLibrary
 		return (this);
 	}
 	StringBuilder* StringBuilder::Append(String* value, Int32 startIndex, Int32 charCount) {
+		if (value == nullptr) {
+			return (this);
+		}
 		if (charCount < 0)
 			charCount = value->get_Length();
 		if (startIndex < 0) {
-- 
2.43.0


From 0fa98b673649e8d04a2bd6ad35e265861e35cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:50 +0000
Subject: [PATCH 38/97] fix: StringBuilder.ToString(start, length) checks the
 whole range

---
 DotNetLibrary/src/StringBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 69c074f..9e85714 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -179,9 +179,9 @@ namespace DotnetLibrary
 		return (new String(chunkChars, 0, currentLength));
 	}
 	String* StringBuilder::ToString(Int32 startIndex, Int32 length) {
-		if (startIndex < 0 || startIndex >= currentLength)
+		if (startIndex < 0 || startIndex > currentLength)
 			throw new IndexOutOfRangeException();
-		if (startIndex + length > currentLength)
+		if (length < 0 || length > currentLength - startIndex)
 			throw new IndexOutOfRangeException();
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
-- 
2.43.0


From a7141b94d1f5ab02eab992bcd7a94208544ddb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 39/97] fix: StringBuilder.Equals compares the whole text

---
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 9e85714..4f724b0 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -342,7 +342,7 @@ namespace DotnetLibrary
 	Boolean StringBuilder::Equals(StringBuilder* sb) {
 		if (sb == nullptr || sb->currentCapacity != currentCapacity || sb->maxCapacity != maxCapacity)
 			return (false);
-		return wcscmp(sb->chunkChars, chunkChars) == 0;
+		return sb->currentLength == currentLength && wmemcmp(sb->chunkChars, chunkChars, currentLength) == 0;
 	}
 	StringBuilder* StringBuilder::Remove(Int32 startIndex, Int32 length) {
 		if (length < 0) {
-- 
2.43.0


From c293e40c03cca0f7c81a729650245d7c6527d7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 40/97] fix: StringBuilder.CountSubStrings terminates for an
 empty string

---
 DotNetLibrary/src/StringBuilder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 4f724b0..d965efa 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -157,6 +157,8 @@ namespace DotnetLibrary
 	}
 	Int32 StringBuilder::CountSubStrings(String* subString, Int32 startIndex, Int32 length) {
 		Int32 amount = 0;
+		if (subString->get_Length() == 0)
+			return (amount);
 		Int32 endIndex = startIndex + 1 + length - subString->get_Length();
 		Int32 bytesToCompare = subString->get_Length() * sizeof(Char);
 		for (int i = startIndex; i < endIndex;) {
-- 
2.43.0


From 6779da4d69f0970fe36a570ca0b1ecbe76d3c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 41/97] fix: StringBuilder room check does not overflow for
 huge counts

---
 DotNetLibrary/src/StringBuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index d965efa..0fab984 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -330,6 +330,9 @@ namespace DotnetLibrary
 		return (this);
 	}
 	void StringBuilder::EnsureRoomFor(Int32 amount) {
+		if (amount > maxCapacity - currentLength) {
+			throw new ArgumentOutOfRangeException();
+		}
 		EnsureCapacity(currentLength + amount);
 	}
 	Int32 StringBuilder::EnsureCapacity(Int32 capacity) {
-- 
2.43.0


From f28ba89b5a814cabaf3f195f3c64b7c8874dbd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 42/97] fix: String(chars, start) stops at the end of the
 characters

The default length ignored the start index and read past the terminator.
---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 172936c..c656ce4 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -37,10 +37,10 @@ namespace DotnetLibrary
 	DotnetLibrary::String::String(const Char* string, const Int32 startIndex, Int32 length) {
 		if (string == nullptr)
 			throw new ArgumentOutOfRangeException();
-		if (length < 0)
-			length = (Int32) wcslen(string);
 		if (startIndex < 0 || startIndex > wcslen(string))
 			throw new ArgumentOutOfRangeException();
+		if (length < 0)
+			length = (Int32) wcslen(string) - startIndex;
 
 		allocate = true;
 		this->length = length;
-- 
2.43.0


From 6319ecf041b59a5d34a81905298be59be8604ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 43/97] fix: String(Array) handles a null array and a start
 index without length

---
 DotNetLibrary/src/StringDotNet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index c656ce4..c68fd85 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -52,8 +52,8 @@ namespace DotnetLibrary
 	}
 	String::String(Array* values, Int32 startIndex, Int32 length) {
 		allocate = true;
-		if (length < 0) {
-			length = values->get_Length();
+		if (values != nullptr && length < 0) {
+			length = values->get_Length() - (startIndex > 0 ? startIndex : 0);
 		}
 		if (values == nullptr || length == 0) {
 			this->length = 0;
@@ -63,7 +63,7 @@ namespace DotnetLibrary
 		if (startIndex < 0) {
 			startIndex = 0;
 		}
-		if (length > values->get_Length() - startIndex) {
+		if (length < 0 || length > values->get_Length() - startIndex) {
 			throw new ArgumentOutOfRangeException();
 		}
 		if (values->GetElementType() != CharType) {
-- 
2.43.0


From e6511fb209006f21a06219cde8ad4e27069aa6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 44/97] fix: string comparison takes the length of both strings
 and null into account

A string compared equal to any string it was a prefix of, null crashed and
ranges outside the strings were read.
---
 DotNetLibrary/src/StringDotNet.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index c68fd85..a4bc977 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -131,17 +131,39 @@ namespace DotnetLibrary
 		}
 		return 0;
 	}
+	static Boolean CompareNulls(String* s1, String* s2, Int32& result) {
+		result = s1 == s2 ? 0 : (s1 == nullptr ? -1 : 1);
+		return s1 == nullptr || s2 == nullptr;
+	}
+	static void CheckCompareRange(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length) {
+		if (index1 < 0 || index2 < 0 || length < 0 || index1 > s1->get_Length() || index2 > s2->get_Length())
+			throw new ArgumentOutOfRangeException();
+	}
 	Int32 String::Compare(String* s1, String* s2, Boolean ignoreCase) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), ignoreCase, false));
+		Int32 result;
+		if (CompareNulls(s1, s2, result))
+			return (result);
+		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, Math::Max(s1->get_Length(), s2->get_Length()), ignoreCase, false));
 	}
 	Int32 String::Compare(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length,
 	                      Boolean ignoreCase) {
+		Int32 result;
+		if (CompareNulls(s1, s2, result))
+			return (result);
+		CheckCompareRange(s1, index1, s2, index2, length);
 		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, ignoreCase, false));
 	}
 	Int32 String::CompareOrdinal(String* s1, String* s2) {
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, s1->get_Length(), false, true));
+		Int32 result;
+		if (CompareNulls(s1, s2, result))
+			return (result);
+		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, Math::Max(s1->get_Length(), s2->get_Length()), false, true));
 	}
 	Int32 String::CompareOrdinal(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length) {
+		Int32 result;
+		if (CompareNulls(s1, s2, result))
+			return (result);
+		CheckCompareRange(s1, index1, s2, index2, length);
 		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, false, true));
 	}
 	Int32 String::CompareTo(Object* value) {
-- 
2.43.0


From 8c0069e8189e6405e4fb9c65fcdd6b56657808f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 45/97] fix: case sensitive string comparison is a consistent
 order

Lower case sorted before upper case, but characters between the two in code
order sorted after upper and before lower case, so A < _ < a < A.
---
 DotNetLibrary/src/StringDotNet.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index a4bc977..092b538 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -119,10 +119,9 @@ namespace DotnetLibrary
 				c1 = *str1++;
 				c2 = *str2++;
 				if (!doOrdinal) {
-					if (CharValue::IsUpper(c1) && CharValue::IsLower(c2))
-						return (1);
-					if (CharValue::IsUpper(c2) && CharValue::IsLower(c1))
-						return (-1);
+					// lower case sorts before upper case
+					c1 = CharValue::IsUpper(c1) ? CharValue::ToLower(c1) : CharValue::ToUpper(c1);
+					c2 = CharValue::IsUpper(c2) ? CharValue::ToLower(c2) : CharValue::ToUpper(c2);
 				}
 			}
 			if (c1 == L'\0' || c1 != c2)
-- 
2.43.0


From fe12bdae701745689145c6d90e4b321d8a0756de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 46/97] fix: String.CompareTo(Object) returns the result of the
 comparison

---
 DotNetLibrary/src/StringDotNet.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 092b538..9c25c4e 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -170,8 +170,7 @@ namespace DotnetLibrary
 			return (1);
 		if (value->GetRawDataType() != StringType)
 			throw new ArgumentException();
-		CompareTo((String*) value);
-		return Int32();
+		return CompareTo((String*) value);
 	}
 	Int32 String::CompareTo(String* str) {
 		if (str == nullptr)
-- 
2.43.0


From 10630fa767182b089b2486a27e15973f4493af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 47/97] fix: String.Concat and Join check the element type of
 the array

Elements of other arrays were used as object pointers.
---
 DotNetLibrary/src/StringDotNet.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 9c25c4e..8da9c87 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -181,7 +181,7 @@ namespace DotnetLibrary
 		if (nullptr == values)
 			throw new ArgumentNullException();
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		StringBuilder sb;
 		for (int i = 0; i < values->get_Length(); ++i)
@@ -388,7 +388,7 @@ namespace DotnetLibrary
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		if (startIndex < 0)
 			throw new ArgumentNullException();
@@ -415,7 +415,7 @@ namespace DotnetLibrary
 			return String::Empty;
 		}
 		values->EnsureSingleDimension();
-		if (values->GetRawDataType() != ObjectType && values->GetRawDataType() != StringType)
+		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
 		if (startIndex < 0)
 			throw new ArgumentNullException();
-- 
2.43.0


From 3ac1ea3b0f7ca5572b0ee359e7ec54c0cd4756bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 48/97] fix: String.Concat treats a null first operand as empty

---
 DotNetLibrary/src/StringDotNet.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 8da9c87..6032189 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -189,10 +189,9 @@ namespace DotnetLibrary
 		return (sb.ToString());
 	}
 	String* String::Concat(Object* o1, Object* o2, Object* o3, Object* o4, Object* o5, Object* o6, Object* o7) {
-		if (nullptr == o1)
-			throw new ArgumentNullException();
 		StringBuilder sb;
-		sb.Append(o1);
+		if (o1 != nullptr)
+			sb.Append(o1);
 		if (o2 != nullptr)
 			sb.Append(o2);
 		if (o3 != nullptr)
-- 
2.43.0


From 3d8b92e334850394630c793ee6ed2f4748afa154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 49/97] fix: String.Contains handles null and empty strings

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 6032189..b269e3f 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -207,6 +207,10 @@ namespace DotnetLibrary
 		return (sb.ToString());
 	}
 	Boolean String::Contains(String* substring) {
+		if (substring == nullptr)
+			throw new ArgumentNullException();
+		if (substring->length == 0)
+			return true;
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(substring, 0, length) != 0);
 	}
-- 
2.43.0


From d4339fa84a96bcf672e543fa260d5cfa2e51365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 50/97] fix: String.StartsWith and EndsWith do not read outside
 a shorter string

---
 DotNetLibrary/src/StringDotNet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index b269e3f..7bcf565 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -249,6 +249,9 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
+		if (what->length > length) {
+			return false;
+		}
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(what, length - what->get_Length(), what->get_Length()) != 0);
 	}
@@ -539,6 +542,9 @@ namespace DotnetLibrary
 		if (what->length == 0) {
 			return true;
 		}
+		if (what->length > length) {
+			return false;
+		}
 		StringBuilder sb(this);
 		return (sb.CountSubStrings(what, 0, what->get_Length()) != 0);
 	}
-- 
2.43.0


From decb4fedc44ca76dd3d06dc831dd7972830fdbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 51/97] fix: String.CopyTo of no characters works at the end of
 the string

---
 DotNetLibrary/src/StringDotNet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 7bcf565..ece4428 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -233,6 +233,8 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (destinationIndex > destination->get_Length() - count || destinationIndex < 0)
 			throw new ArgumentNullException();
+		if (count == 0)
+			return;
 		Char* source = Address(sourceIndex);
 		Char* dest = (Char*) destination->Address(destinationIndex);
 		for (int i = 0; i < count; ++i) {
-- 
2.43.0


From 9cd9e8f970e29a375de2c0cd0e8327805283b6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 52/97] fix: String.IndexOf and IndexOfAny reject negative
 start indexes and counts

---
 DotNetLibrary/src/StringDotNet.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index ece4428..9905c85 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -300,9 +300,13 @@ namespace DotnetLibrary
 		return IndexOf(value, 0, length);
 	}
 	Int32 String::IndexOf(const Char value, const Int32 startIndex) {
+		if (startIndex < 0)
+			throw new ArgumentOutOfRangeException();
 		return IndexOf(value, startIndex, length - startIndex);
 	}
 	Int32 String::IndexOf(const Char value, const Int32 startIndex, const Int32 count) {
+		if (startIndex < 0 || count < 0)
+			throw new ArgumentOutOfRangeException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
 		Int32 endIndex = startIndex + count;
@@ -320,6 +324,8 @@ namespace DotnetLibrary
 	Int32 String::IndexOf(String* value, const Int32 startIndex) {
 		if (value == nullptr)
 			throw new ArgumentNullException();
+		if (startIndex < 0)
+			throw new ArgumentOutOfRangeException();
 		return IndexOf(value, startIndex, length - startIndex);
 	}
 	Int32 String::IndexOf(String* value, const Int32 startIndex, const Int32 count) {
@@ -344,6 +350,8 @@ namespace DotnetLibrary
 	Int32 String::IndexOfAny(Array* arr, const Int32 startIndex) {
 		if (arr == nullptr)
 			throw new ArgumentNullException();
+		if (startIndex < 0)
+			throw new ArgumentOutOfRangeException();
 		return IndexOfAny(arr, startIndex, get_Length() - startIndex);
 	}
 	Int32 String::IndexOfAny(Array* arr, const Int32 startIndex, const Int32 count) {
-- 
2.43.0


From 958f99a00feea8004afe7e88b83cbfabcc3f688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 53/97] fix: String.IndexOf(String) only finds matches inside
 the searched range

---
 DotNetLibrary/src/StringDotNet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 9905c85..6aa037b 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -340,7 +340,7 @@ namespace DotnetLibrary
 			return (-1);
 		Int32 delta = found - get_Buffer();
 		Int32 endIndex = startIndex + count;
-		return (delta > endIndex ? -1 : delta);
+		return (delta > endIndex - value->get_Length() ? -1 : delta);
 	}
 	Int32 String::IndexOfAny(Array* arr) {
 		if (arr == nullptr)
-- 
2.43.0


From 4d175cf73f7194abc67c888f7e054cd19d00db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 54/97] fix: String.LastIndexOf and LastIndexOfAny check the
 searched range

A start index behind the end of the string was read without a check.
---
 DotNetLibrary/src/StringDotNet.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 6aa037b..d3e0d37 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -450,11 +450,16 @@ namespace DotnetLibrary
 		}
 		return (sb.ToString());
 	}
-	Int32 String::LastIndexOf(const Char value, Int32 startIndex, Int32 count) {
-		if (startIndex < 0)
+	static void CheckLastIndexRange(Int32 length, Int32& startIndex, Int32& count) {
+		if (startIndex < 0 || length == 0)
 			startIndex = length - 1;
-		if (count < 0)
+		if (count < 0 || length == 0)
 			count = startIndex + 1;
+		if (startIndex >= length || count > startIndex + 1)
+			throw new ArgumentOutOfRangeException();
+	}
+	Int32 String::LastIndexOf(const Char value, Int32 startIndex, Int32 count) {
+		CheckLastIndexRange(length, startIndex, count);
 		Int32 endIndex = startIndex - count;
 		for (Int32 index = startIndex; index > endIndex; --index) {
 			if (get_Chars(index) == value)
@@ -465,10 +470,7 @@ namespace DotnetLibrary
 	Int32 String::LastIndexOf(String* value, Int32 startIndex, Int32 count) {
 		if (value == nullptr)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
-			startIndex = length - 1;
-		if (count < 0)
-			count = startIndex + 1;
+		CheckLastIndexRange(length, startIndex, count);
 		Int32 endIndex = startIndex - count;
 		for (Int32 i = startIndex; i > endIndex; --i) {
 			Char* found = wcsstr(get_Buffer() + i, value->get_Buffer());
@@ -483,10 +485,7 @@ namespace DotnetLibrary
 	Int32 String::LastIndexOfAny(Array* arr, Int32 startIndex, Int32 count) {
 		if (arr == nullptr)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
-			startIndex = length - 1;
-		if (count < 0)
-			count = startIndex + 1;
+		CheckLastIndexRange(length, startIndex, count);
 		arr->EnsureSingleDimension();
 		if (arr->GetElementType() != CharType)
 			throw new ArgumentNullException();
-- 
2.43.0


From 5eee4963bba055d7076e55b6a44d9491443a8379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 55/97] fix: String.LastIndexOf(String) only finds matches
 inside the searched range

---
 DotNetLibrary/src/StringDotNet.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index d3e0d37..e9c7c42 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -472,13 +472,9 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		CheckLastIndexRange(length, startIndex, count);
 		Int32 endIndex = startIndex - count;
-		for (Int32 i = startIndex; i > endIndex; --i) {
-			Char* found = wcsstr(get_Buffer() + i, value->get_Buffer());
-			if (found != nullptr) {
-				Int32 delta = found - get_Buffer();
-				if (delta <= startIndex)
-					return (delta);
-			}
+		for (Int32 i = startIndex + 1 - value->get_Length(); i > endIndex; --i) {
+			if (wmemcmp(get_Buffer() + i, value->get_Buffer(), value->get_Length()) == 0)
+				return (i);
 		}
 		return -1;
 	}
-- 
2.43.0


From 23a88f7b0f36c65b767c41aecd38609f33028bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 56/97] fix: String.Join rejects a start index behind the end
 of the array

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index e9c7c42..252fc87 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -406,7 +406,7 @@ namespace DotnetLibrary
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
@@ -433,7 +433,7 @@ namespace DotnetLibrary
 		values->EnsureSingleDimension();
 		if (values->GetElementType() != ObjectType && values->GetElementType() != StringType)
 			throw new ArgumentNullException();
-		if (startIndex < 0)
+		if (startIndex < 0 || startIndex > values->get_Length())
 			throw new ArgumentNullException();
 		if (count < 0)
 			count = values->get_Length() - startIndex;
-- 
2.43.0


From 6ed8b7821776367787e697ad920bd9de083af87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 57/97] fix: String.Remove checks the start index before using
 it

---
 DotNetLibrary/src/StringDotNet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 252fc87..ab17e6a 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -521,6 +521,8 @@ namespace DotnetLibrary
 		return (sb.ToString());
 	}
 	String* String::Remove(const Int32 startIndex, Int32 count) {
+		if (startIndex < 0)
+			throw new ArgumentOutOfRangeException();
 		StringBuilder sb(this);
 		if (count < 0)
 			count = length - startIndex;
-- 
2.43.0


From 500e97a5c224664c6743214970ff6504d4e23c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 58/97] fix: String.IsNullOrWhiteSpace uses the same white
 space as Trim

---
 DotNetLibrary/src/StringDotNet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index ab17e6a..522b692 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -391,7 +391,7 @@ namespace DotnetLibrary
 		if (IsNullOrEmpty(value))
 			return (true);
 		for (Int32 i = 0; i < value->length; ++i) {
-			if (!iswspace(value->characterData[i]))
+			if (!IsWhiteSpace(value->characterData[i], WhiteSpaceChars, sizeof(WhiteSpaceChars) / sizeof(Char)))
 				return (false);
 		}
 		return (true);
-- 
2.43.0


From c80d3a34bbf74b415592bff0092de8b944bfa37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 59/97] fix: String equality compares all characters

---
 DotNetLibrary/src/StringDotNet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 522b692..2216c4f 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -270,7 +270,7 @@ namespace DotnetLibrary
 		if (str == nullptr || str2 == nullptr || str->get_Length() != str2->get_Length()) {
 			return true;
 		}
-		return wcscmp(str->get_Buffer(), str2->get_Buffer()) != 0;
+		return wmemcmp(str->get_Buffer(), str2->get_Buffer(), str->get_Length()) != 0;
 	}
 	Boolean String::Equals(Object* object) {
 		if (object == nullptr || object->GetRawDataType() != StringType)
-- 
2.43.0


From 3b5eb64a186770f9fca145abc41d20c41bd4bf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 60/97] fix: FormatString leaves room for the terminator

Text exactly as long as the buffer had its terminator written behind it.
---
 DotNetLibrary/src/BooleanValue.cpp  | 4 ++--
 DotNetLibrary/src/CharValue.cpp     | 3 ++-
 DotNetLibrary/src/Object.cpp        | 2 +-
 DotNetLibrary/src/StringBuilder.cpp | 2 +-
 DotNetLibrary/src/StringDotNet.cpp  | 6 ++++--
 5 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/DotNetLibrary/src/BooleanValue.cpp b/DotNetLibrary/src/BooleanValue.cpp
index 00aba1b..0b22c0f 100644
--- a/DotNetLibrary/src/BooleanValue.cpp
+++ b/DotNetLibrary/src/BooleanValue.cpp
@@ -94,11 +94,11 @@ namespace DotnetLibrary
 		Int32 rtn;
 		if (value) {
 			CopyChars(where, whereSize, TrueString->get_Buffer(), TrueString->get_Length());
-			rtn = TrueString->get_Length();
+			rtn = Math::Min(TrueString->get_Length(), whereSize - 1);
 		}
 		else {
 			CopyChars(where, whereSize, FalseString->get_Buffer(), FalseString->get_Length());
-			rtn = FalseString->get_Length();
+			rtn = Math::Min(FalseString->get_Length(), whereSize - 1);
 		}
 		return rtn;
 	}
diff --git a/DotNetLibrary/src/CharValue.cpp b/DotNetLibrary/src/CharValue.cpp
index fe95949..777db53 100644
--- a/DotNetLibrary/src/CharValue.cpp
+++ b/DotNetLibrary/src/CharValue.cpp
@@ -79,7 +79,8 @@ namespace DotnetLibrary
 	Int32 CharValue::FormatString(Char* where, const Int32 whereSize) {
 		if (whereSize < 2)
 			throw new IndexOutOfRangeException();
-		*where = value;
+		where[0] = value;
+		where[1] = 0;
 		return 1;
 	}
 	Double CharValue::GetNumericValue(String* v, Int32 index) {
diff --git a/DotNetLibrary/src/Object.cpp b/DotNetLibrary/src/Object.cpp
index 704accb..77989a2 100644
--- a/DotNetLibrary/src/Object.cpp
+++ b/DotNetLibrary/src/Object.cpp
@@ -43,7 +43,7 @@ namespace DotnetLibrary
 	}
 	Int32 Object::FormatString(Char* where, const Int32 whereSize) {
 		CopyChars(where, whereSize, (Char*) L"Object", 6);
-		return ((Int32) wcslen((Char*) L"Object"));
+		return (Math::Min((Int32) wcslen((Char*) L"Object"), whereSize - 1));
 	}
 	Boolean Object::get_AsBoolean() {
 		throw new InvalidCastException();
diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 0fab984..7dac443 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -188,7 +188,7 @@ namespace DotnetLibrary
 		return (new String(&chunkChars[startIndex], 0, length));
 	}
 	Int32 StringBuilder::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < currentLength)
+		if (whereSize <= currentLength)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, chunkChars, this->currentLength);
 		return currentLength;
diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 2216c4f..916482d 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -686,13 +686,15 @@ namespace DotnetLibrary
 		return (false);
 	}
 	Int32 String::FormatString(Char* where, const Int32 whereSize) {
-		if (whereSize < this->length)
+		if (whereSize <= this->length)
 			throw new IndexOutOfRangeException();
 		CopyChars(where, whereSize, this->characterData, length);
 		return this->length;
 	}
 	void CopyChars(Char* where, Int32 whereSize, Char* source, Int32 sourceSize) {
-		if (sourceSize > whereSize)
+		if (whereSize < 1)
+			throw new IndexOutOfRangeException();
+		if (sourceSize >= whereSize)
 			sourceSize = whereSize - 1;
 		memcpy(where, source, sourceSize * sizeof(Char));
 		where[sourceSize] = 0;
-- 
2.43.0


From fd3f1445c2fced1c67da35263711e0c95306aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 61/97] fix: TimeSpan.MaxValue/MinValue are the Int64 limits,
 so Zero can be negated

---
 DotNetLibrary/src/TimeSpanValue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index ea2841b..2f7410c 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -20,8 +20,8 @@
 
 namespace DotnetLibrary
 {
-	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(UInt64Value::MaxValue);
-	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(UInt64Value::MinValue);
+	DLL_EXPORT TimeSpan TimeSpanValue::MaxValue = TimeSpan(Int64Value::MaxValue);
+	DLL_EXPORT TimeSpan TimeSpanValue::MinValue = TimeSpan(Int64Value::MinValue);
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMillisecond = 10000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerSecond = TicksPerMillisecond * 1000;
 	DLL_EXPORT Int64 TimeSpanValue::TicksPerMinute = TicksPerSecond * 60;
-- 
2.43.0


From f4028f660ea4e830d92335c59b64bf176de26150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 62/97] fix: TimeSpan.Subtract detects overflow and
 Add/Subtract do not rely on signed wrap-around

---
 DotNetLibrary/src/TimeSpanValue.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 2f7410c..ccd9bcd 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -89,7 +89,7 @@ namespace DotnetLibrary
 		return value;
 	}
 	TimeSpan TimeSpanValue::Add(const TimeSpan& ts) {
-		Int64 result = value.value + ts.value;
+		Int64 result = (Int64) ((UInt64) value.value + (UInt64) ts.value);
 		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
 			throw new OverflowException();
 		return TimeSpan(result);
@@ -241,8 +241,8 @@ namespace DotnetLibrary
 		return (results);
 	}
 	TimeSpan TimeSpanValue::Subtract(const TimeSpan& ts) {
-		Int64 result = value.value - ts.value;
-		if ((value.value >> 63 == ts.value >> 63) && (value.value >> 63 != result >> 63))
+		Int64 result = (Int64) ((UInt64) value.value - (UInt64) ts.value);
+		if ((value.value >> 63 != ts.value >> 63) && (value.value >> 63 != result >> 63))
 			throw new OverflowException();
 		return TimeSpan(result);
 	}
-- 
2.43.0


From b49bd541f7a6f5f73f9da703c8cbf1280ccccfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 63/97] fix: TimeSpan scaling rejects results of exactly 2^63
 ticks and NaN instead of converting them

---
 DotNetLibrary/src/TimeSpanValue.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index ccd9bcd..9977065 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -129,7 +129,7 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value / divisor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue || DoubleValue::IsNaN(ticks)) {
+		if (ticks >= 9223372036854775808.0 || ticks < -9223372036854775808.0 || DoubleValue::IsNaN(ticks)) {
 			throw new OverflowException();
 		}
 		return FromTicks((Int64) ticks);
@@ -212,7 +212,7 @@ namespace DotnetLibrary
 		if (DoubleValue::IsNaN(value))
 			throw new ArgumentException();
 		Double ticks = value * scale;
-		if ((ticks > Int64Value::MaxValue) || (ticks < Int64Value::MinValue))
+		if ((ticks >= 9223372036854775808.0) || (ticks < -9223372036854775808.0))
 			throw new OverflowException();
 		return (Int64) ticks;
 	}
@@ -221,7 +221,7 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		}
 		Double ticks = Math::Round(value.value * factor);
-		if (ticks > Int64Value::MaxValue || ticks < Int64Value::MinValue) {
+		if (ticks >= 9223372036854775808.0 || ticks < -9223372036854775808.0 || DoubleValue::IsNaN(ticks)) {
 			throw new OverflowException();
 		}
 		return FromTicks((Int64) ticks);
-- 
2.43.0


From d0a79ed474a644b3a96f96d12253668248fb0cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 64/97] fix: TimeSpan.FormatString pads the fraction with
 leading zeros

---
 DotNetLibrary/src/TimeSpanValue.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 9977065..5b01f55 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -182,11 +182,8 @@ namespace DotnetLibrary
 		stringBuilder.Append(date, length);
 		if (fractional != 0) {
 			stringBuilder.Append((Char) '.');
-			Char frac[32];
-			Int32Value factValue(fractional);
-			Int32 fracLength = factValue.FormatString(frac, 32);
-			stringBuilder.Append(frac, fracLength);
-			stringBuilder.Append(L'0', 7 - fracLength);
+			for (Int32 scale = 1000000; scale > 0; scale /= 10)
+				stringBuilder.Append((Char) (L'0' + fractional / scale % 10));
 		}
 		return (stringBuilder.FormatString(where, whereSize));
 	}
-- 
2.43.0


From 049010fc0402689ca401c8eb93cc2f833a0cd70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 65/97] fix: TimeSpan.TryParse rejects malformed and
 out-of-range text and reads days of any length

---
 DotNetLibrary/src/TimeSpanValue.cpp | 87 +++++++++++++++++------------
 1 file changed, 50 insertions(+), 37 deletions(-)

diff --git a/DotNetLibrary/src/TimeSpanValue.cpp b/DotNetLibrary/src/TimeSpanValue.cpp
index 5b01f55..69211e0 100644
--- a/DotNetLibrary/src/TimeSpanValue.cpp
+++ b/DotNetLibrary/src/TimeSpanValue.cpp
@@ -247,55 +247,68 @@ namespace DotnetLibrary
 		Int64 numbers[] = { 0, 0, 0, 0 };
 		Int32 amount = 0;
 		Int64 fractional = 0;
+		result = TimeSpan();
+		if (s == nullptr)
+			return false;
 		Char* chars = s->get_Buffer();
 		Int32 length = s->get_Length();
-		Int32 sign;
 		Boolean negate = false;
-		if (*chars == L'-') {
+		Boolean hasDays = false;
+		if (length > 0 && *chars == L'-') {
 			negate = true;
 			++chars;
 			--length;
 		}
-		while (length > 0) {
-			UInt64 number;
-			Int32 digits = 1;
-			if (!CharValue::IsDigit(*chars))
-				break;
-			if (length > 2 && chars[1] != L':' && chars[2] != L':' && chars[2] != L'.' && chars[1] != L'.')
+		while (true) {
+			Int64 number = 0;
+			Int32 digits = 0;
+			while (length > 0 && CharValue::IsDigit(*chars)) {
+				number = number * 10 + (*chars - L'0');
+				if (number > Int64Value::MaxValue / TicksPerDay)
+					return false;
+				++digits;
+				++chars;
+				--length;
+			}
+			if (digits == 0)
+				return false;
+			numbers[amount++] = number;
+			if (length == 0 || amount == 4 || (*chars != L':' && !(amount == 1 && *chars == L'.')))
 				break;
-			if (CharValue::IsDigit(chars[1]))
-				digits = 2;
-			UInt64Value::TryParseInternal(chars, digits, number, sign);
-			numbers[amount++] = (Int64) number;
-			chars += digits + 1;
-			length -= digits + 1;
+			if (*chars == L'.')
+				hasDays = true;
+			++chars;
+			--length;
 		}
-		Int64 frac = TicksPerSecond;
-		while (frac > 1 && length > 0 && CharValue::IsDigit(*chars)) {
-			frac /= 10;
-			fractional += (Int64) (*chars - L'0') * frac;
+		if (hasDays && amount < 3)
+			return false;
+		if (amount == 1 || amount == 4)
+			hasDays = true;
+		if (length > 1 && *chars == L'.' && amount == (hasDays ? 4 : 3)) {
 			++chars;
 			--length;
+			Int64 frac = TicksPerSecond;
+			while (frac > 1 && length > 0 && CharValue::IsDigit(*chars)) {
+				frac /= 10;
+				fractional += (Int64) (*chars - L'0') * frac;
+				++chars;
+				--length;
+			}
 		}
-		//for (; length > 0; --length) {
-		//	if (chars[length - 1] != L'0')
-		//		break;
-		//}
-		//if (length > 0)
-		//	if (!UInt64Value::TryParseInternal(chars, length, fractional, sign))
-		//		return(false);
-		//}
-		Int64 days = 0;
-		Int64 index = 0;
-		if (amount > 3 || amount == 1)
-			days += numbers[index++] * TicksPerDay;
-		Int64 hours = numbers[index++] * TicksPerHour;
-		Int64 minutes = numbers[index++] * TicksPerMinute;
-		Int64 seconds = numbers[index++] * TicksPerSecond;
-		Int64 ticks = fractional + days + hours + minutes + seconds;
-		if (negate)
-			ticks = -ticks;
-		result = ticks;
+		if (length > 0)
+			return false;
+		Int32 index = 0;
+		Int64 days = hasDays ? numbers[index++] : 0;
+		Int64 hours = index < amount ? numbers[index++] : 0;
+		Int64 minutes = index < amount ? numbers[index++] : 0;
+		Int64 seconds = index < amount ? numbers[index++] : 0;
+		if (hours > 23 || minutes > 59 || seconds > 59)
+			return false;
+		UInt64 ticks = (UInt64) (days * TicksPerDay);
+		ticks += (UInt64) (hours * TicksPerHour + minutes * TicksPerMinute + seconds * TicksPerSecond + fractional);
+		if (ticks > (UInt64) Int64Value::MaxValue + (negate ? 1 : 0))
+			return false;
+		result = TimeSpan((Int64) (negate ? 0 - ticks : ticks));
 		return true;
 	}
 	TimeSpan TimeSpanValue::op_Addition(const TimeSpan& ts1, const TimeSpan& ts2) {
-- 
2.43.0


From 7d297671d9cc2475fe96830360e301df8cededc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 66/97] fix: DateTime rejects 1000 milliseconds

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 58f5034..be707b3 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -52,7 +52,7 @@ namespace DotnetLibrary
 		Int64 totalSeconds = (Int64) days * 3600 * 24 + (Int64) hour * 3600 + (Int64) minute * 60 + (Int64) second;
 		if (totalSeconds > MaxSeconds || totalSeconds < MinSeconds)
 			throw new ArgumentOutOfRangeException();
-		if (milliseconds < 0 || milliseconds > 1000)
+		if (milliseconds < 0 || milliseconds > 999)
 			throw new ArgumentOutOfRangeException();
 		return ((totalSeconds * TicksPerSecond) + (milliseconds * TicksPerMillisecond));
 	}
-- 
2.43.0


From 81f3c77bf5cd876c3ff70c1d655195ed51b4c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 67/97] fix: DateTime.Add* rejects NaN instead of converting it

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index be707b3..4220756 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -106,6 +106,8 @@ namespace DotnetLibrary
 		return AddTicks(ts.value);
 	}
 	DateTime DateTimeValue::Add(Double value, Int32 scale) {
+		if (value != value)
+			throw new ArgumentException();
 		Double millis_double = value * (Double) scale + (value >= 0 ? 0.5 : -0.5);
 		if (millis_double <= (Double) -MaxMillis || millis_double >= (Double) MaxMillis)
 			throw new ArgumentOutOfRangeException();
-- 
2.43.0


From 349012efb315cfb380c53b1141514b2141dcdd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 68/97] fix: DateTime formats the hour of noon as PM

---
 DotNetLibrary/src/DateTimeValue.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 4220756..3483af1 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -274,9 +274,10 @@ namespace DotnetLibrary
 		Int32 minute = this->get_Minute();
 		Int32 second = this->get_Second();
 		Boolean isPm = false;
-		if (hour > 12) {
-			hour -= 12;
+		if (hour >= 12) {
 			isPm = true;
+			if (hour > 12)
+				hour -= 12;
 		}
 		Char dateTime[128];
 #ifdef __MINGW32__
-- 
2.43.0


From b64ed350d6f0c8c5d6bfc5d0b332c27703f8f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 69/97] fix: DateTime.FormatString formats into its own buffer
 whatever the destination size

---
 DotNetLibrary/src/DateTimeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 3483af1..d09bed4 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -283,7 +283,7 @@ namespace DotnetLibrary
 #ifdef __MINGW32__
 		Int32 length = swprintf(dateTime, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #else
-		Int32 length = swprintf(dateTime, whereSize, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
+		Int32 length = swprintf(dateTime, 128, L"%d/%d/%d %d:%02d:%02d ", month, day, year, hour, minute, second);
 #endif
 		stringBuilder.Append(dateTime, length);
 		if (isPm)
-- 
2.43.0


From 07cf761c3c5939229a6b0bd254d3da6d6787bf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 70/97] fix: the local time offset accounts for minutes and for
 differing calendar days

---
 DotNetLibrary/src/DateTimeValue.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index d09bed4..c1a81e8 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -315,10 +315,12 @@ namespace DotnetLibrary
 #endif
 		time_t rawTime = time(nullptr);
 		struct tm* utcInfo = gmtime(&rawTime);
-		int gmHour = utcInfo->tm_hour;
+		struct tm utc = *utcInfo;
 		struct tm* localInfo = localtime(&rawTime);
-		int lcHour = localInfo->tm_hour;
-		TimeSpan ts = TimeSpan(lcHour - gmHour, 0, 0);
+		Int32 days = localInfo->tm_yday - utc.tm_yday;
+		if (localInfo->tm_year != utc.tm_year)
+			days = localInfo->tm_year - utc.tm_year;
+		TimeSpan ts = TimeSpan(days, localInfo->tm_hour - utc.tm_hour, localInfo->tm_min - utc.tm_min, localInfo->tm_sec - utc.tm_sec);
 		return ts;
 	}
 
-- 
2.43.0


From 62100388ae174f8db21fa924f6b312de0fd60eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 71/97] fix: IsDaylightSavingTime does not read an
 uninitialised tm_isdst

---
 DotNetLibrary/src/DateTimeValue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index c1a81e8..268f684 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -256,8 +256,9 @@ namespace DotnetLibrary
 		timeinfo.tm_mon = get_Month() - 1;
 		timeinfo.tm_sec = get_Second();
 		timeinfo.tm_year = get_Year() - 1900;
+		timeinfo.tm_isdst = -1;
 		rawtime = mktime(&timeinfo);
-		return (timeinfo.tm_isdst != 0);
+		return (timeinfo.tm_isdst > 0);
 	}
 	Boolean DateTimeValue::IsLeapYear(Int32 year) {
 		if (year < 1 || year > 9999) {
-- 
2.43.0


From f38e15629534f0a4d61edc32b9865d09519b7861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 72/97] fix: pool allocator refuses requests whose size does
 not fit in 32 bits

---
 PlatformSupport/PlatformSupport.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PlatformSupport/PlatformSupport.cpp b/PlatformSupport/PlatformSupport.cpp
index 5552f83..2cc7d50 100644
--- a/PlatformSupport/PlatformSupport.cpp
+++ b/PlatformSupport/PlatformSupport.cpp
@@ -35,12 +35,15 @@ DLL_PLATFORMSUPPORT_EXPORTS void* CDECL my_operator_new_replacement(size_t size)
 	// Use malloc if not setup such as when unit tests run.
 	if (memory == nullptr) {
 		void* mem = malloc(size);
-		memset(mem, 0, size);
+		if (mem != nullptr)
+			memset(mem, 0, size);
 		return(mem);
 	}
+	if (size > memorySize)
+		return(nullptr);
 	uint32_t required = (uint32_t)size;
 	required = Align(required, sizeof(double));
-	if (memoryUsed + required > memorySize)
+	if (required > memorySize - memoryUsed)
 		return(nullptr);
 	memoryUsed += required;
 	char* ret = currentMemory;
-- 
2.43.0


From f28a408e16cf0d09ca92d98e080d4c5f1895554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 73/97] fix: Exception.GetBaseException returns the innermost
 exception, or itself

---
 DotNetLibrary/include/Exception.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/include/Exception.h b/DotNetLibrary/include/Exception.h
index 2cb8900..5f144f6 100644
--- a/DotNetLibrary/include/Exception.h
+++ b/DotNetLibrary/include/Exception.h
@@ -73,7 +73,10 @@ namespace DotnetLibrary
 		 * @return base exception
 		 */
 		Exception* GetBaseException() {
-			return (innerException);
+			Exception* base = this;
+			while (base->innerException != nullptr)
+				base = base->innerException;
+			return (base);
 		}
 		/*!
 		 * Get raw type of this boxed object
-- 
2.43.0


From de9b6b04eb3fb77956bdacd25c2cfe7e8e905c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 74/97] fix: Run survives an exception that has no message

---
 DotNetLibrarySupport/DotNetLibrarySupport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrarySupport/DotNetLibrarySupport.cpp b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
index edb07ab..bc7e030 100644
--- a/DotNetLibrarySupport/DotNetLibrarySupport.cpp
+++ b/DotNetLibrarySupport/DotNetLibrarySupport.cpp
@@ -40,7 +40,8 @@ void DotnetLibrarySupport::TranslatorSupport::Run()
 		RunCode();
 	}
 	catch (Exception * ex) {
-		Send(ex->get_Message());
+		if (ex->get_Message() != nullptr)
+			Send(ex->get_Message());
 	}
 }
 
-- 
2.43.0


From f60fe6d60f9f254d00bddc0b130c5acb4c974cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 75/97] fix: Array.GetValue/SetValue reject index arrays that
 do not hold Int32 values

---
 DotNetLibrary/src/Array.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 0850722..5ff0ac1 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -178,6 +178,8 @@ namespace DotnetLibrary
 		if (indexes == nullptr)
 			throw new ArgumentNullException;
 		indexes->EnsureSingleDimension();
+		if (indexes->dataType != Int32Type)
+			throw new ArgumentException();
 		Int32 arraySize = indexes->dimension1Size;
 		if (arraySize > 3)
 			throw new NotImplementedException();
@@ -335,6 +337,8 @@ namespace DotnetLibrary
 		if (indexes == nullptr)
 			throw new ArgumentNullException;
 		indexes->EnsureSingleDimension();
+		if (indexes->dataType != Int32Type)
+			throw new ArgumentException();
 		Int32 arraySize = indexes->dimension1Size;
 		if (arraySize > 3)
 			throw new NotImplementedException();
-- 
2.43.0


From b0625499e7c5e21ef7fc1198d193fce942e0165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:08 +0000
Subject: [PATCH 76/97] fix: String.LastIndexOf checks the start before
 computing with it

---
 DotNetLibrary/src/StringDotNet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 916482d..dbf8156 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -453,9 +453,11 @@ namespace DotnetLibrary
 	static void CheckLastIndexRange(Int32 length, Int32& startIndex, Int32& count) {
 		if (startIndex < 0 || length == 0)
 			startIndex = length - 1;
+		if (startIndex >= length)
+			throw new ArgumentOutOfRangeException();
 		if (count < 0 || length == 0)
 			count = startIndex + 1;
-		if (startIndex >= length || count > startIndex + 1)
+		if (count > startIndex + 1)
 			throw new ArgumentOutOfRangeException();
 	}
 	Int32 String::LastIndexOf(const Char value, Int32 startIndex, Int32 count) {
-- 
2.43.0


From c3270be1369213aba653cd6f83312c341103800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 77/97] fix: Math.Abs of an integer is an exact integer and
 overflows on the smallest value

---
 DotNetLibrary/include/DotNetMath.h |  8 ++++----
 DotNetLibrary/src/DotNetMath.cpp   | 24 ++++++++++++++++--------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/DotNetLibrary/include/DotNetMath.h b/DotNetLibrary/include/DotNetMath.h
index 7a68592..cdccdea 100644
--- a/DotNetLibrary/include/DotNetMath.h
+++ b/DotNetLibrary/include/DotNetMath.h
@@ -48,25 +48,25 @@ namespace DotnetLibrary
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int16 v1);
+		static Int16 Abs(Int16 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int32 v1);
+		static Int32 Abs(Int32 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(Int64 v1);
+		static Int64 Abs(Int64 v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
 		 * @return Absolute value
 		 */
-		static Double Abs(SByte v1);
+		static SByte Abs(SByte v1);
 		/*!
 		 * Absolute value
 		 * @param v1 value to use
diff --git a/DotNetLibrary/src/DotNetMath.cpp b/DotNetLibrary/src/DotNetMath.cpp
index 37bb447..bf08a01 100644
--- a/DotNetLibrary/src/DotNetMath.cpp
+++ b/DotNetLibrary/src/DotNetMath.cpp
@@ -33,17 +33,25 @@ namespace DotnetLibrary
 	Double Math::Abs(Double v1) {
 		return fabs(v1);
 	}
-	Double Math::Abs(Int16 v1) {
-		return abs(v1);
+	Int16 Math::Abs(Int16 v1) {
+		if (v1 == Int16Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
 	}
-	Double Math::Abs(Int32 v1) {
-		return fabs((Double) v1);
+	Int32 Math::Abs(Int32 v1) {
+		if (v1 == Int32Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
 	}
-	Double Math::Abs(Int64 v1) {
-		return fabs((Double) v1);
+	Int64 Math::Abs(Int64 v1) {
+		if (v1 == Int64Value::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
 	}
-	Double Math::Abs(SByte v1) {
-		return abs(v1);
+	SByte Math::Abs(SByte v1) {
+		if (v1 == SByteValue::MinValue)
+			throw new OverflowException();
+		return v1 < 0 ? -v1 : v1;
 	}
 	Double Math::Abs(Single v1) {
 		return fabs(v1);
-- 
2.43.0


From 9107fd2d2018d70f0af25993286c8af1cd2703a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 78/97] fix: Double and Single parsing refuse an exponent
 without digits

---
 DotNetLibrary/src/DoubleValue.cpp | 8 ++++----
 DotNetLibrary/src/SingleValue.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 4628eb3..4f6a262 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -167,11 +167,11 @@ namespace DotnetLibrary
 			++source;
 			--sourceLength;
 		}
-		Double rtn = 0;
-		int consumed = 0;
-		gotNumber = swscanf(source, L"%lG%n", &rtn, &consumed) == 1;
+		Char* end = source;
+		Double rtn = wcstod(source, &end);
+		gotNumber = end != source;
 		if (gotNumber) {
-			for (source += consumed; *source != 0; ++source) {
+			for (source = end; *source != 0; ++source) {
 				if (!CharValue::IsWhiteSpace(*source))
 					gotNumber = false;
 			}
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 755a850..0d143d3 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -174,11 +174,11 @@ namespace DotnetLibrary
 			++source;
 			--sourceLength;
 		}
-		Single rtn = 0;
-		int consumed = 0;
-		gotNumber = swscanf(source, L"%G%n", &rtn, &consumed) == 1;
+		Char* end = source;
+		Single rtn = wcstof(source, &end);
+		gotNumber = end != source;
 		if (gotNumber) {
-			for (source += consumed; *source != 0; ++source) {
+			for (source = end; *source != 0; ++source) {
 				if (!CharValue::IsWhiteSpace(*source))
 					gotNumber = false;
 			}
-- 
2.43.0


From 93dbb972b9a7c5420db33eb43b42764fa7ec86a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 79/97] fix: DateTime rejects a negative hour instead of
 dropping the time of day

---
 DotNetLibrary/src/DateTimeValue.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index 268f684..fbf7cbf 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -74,8 +74,7 @@ namespace DotnetLibrary
 	}
 	DateTime::DateTime(Int32 year, Int32 month, Int32 day, Int32 hour, Int32 minute, Int32 second, Int32 millisecond) {
 		value = DateToTicks(year, month, day);
-		if (hour >= 0)
-			value += TimeToTicks(hour, minute, second, millisecond);
+		value += TimeToTicks(hour, minute, second, millisecond);
 	}
 
 	DateTime DateTimeValue::get_UtcNow() {
-- 
2.43.0


From 80a9a4ea6c0bc4079b2789ca2a1c6c5b768523fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 80/97] fix: the memory pool hands out blocks aligned for every
 type, as operator new must

---
 PlatformSupport/PlatformSupport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PlatformSupport/PlatformSupport.cpp b/PlatformSupport/PlatformSupport.cpp
index 2cc7d50..1fa2e02 100644
--- a/PlatformSupport/PlatformSupport.cpp
+++ b/PlatformSupport/PlatformSupport.cpp
@@ -16,6 +16,7 @@
 // OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER
 // DEALINGS IN THE SOFTWARE.
 #include "PlatformSupport.h"
+#include <stddef.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -42,7 +43,7 @@ DLL_PLATFORMSUPPORT_EXPORTS void* CDECL my_operator_new_replacement(size_t size)
 	if (size > memorySize)
 		return(nullptr);
 	uint32_t required = (uint32_t)size;
-	required = Align(required, sizeof(double));
+	required = Align(required, alignof(max_align_t));
 	if (required > memorySize - memoryUsed)
 		return(nullptr);
 	memoryUsed += required;
-- 
2.43.0


From 0f92a8b47b95e295ae6c36621f901ffc85c7d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:22 +0000
Subject: [PATCH 81/97] fix: Array.SetValue stores values of 2^63 and more into
 UInt64 arrays without passing through Int64

---
 DotNetLibrary/src/Array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 5ff0ac1..7e86c4e 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -314,7 +314,7 @@ namespace DotnetLibrary
 				*((Int64*) addr) = value->get_AsInt64();
 				break;
 			case UInt64Type:
-				*((UInt64*) addr) = value->get_AsInt64();
+				*((UInt64*) addr) = value->get_AsUInt64();
 				break;
 			case SingleType:
 				*((Single*) addr) = value->get_AsSingle();
-- 
2.43.0


From 08b3a354590ef29abebcb71a2d8ab60a4d2b430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 82/97] fix: StringBuilder.Replace computed the room it needs
 in 32 bits and wrote past its storage

---
 DotNetLibrary/src/StringBuilder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 7dac443..f947417 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -507,6 +507,8 @@ namespace DotnetLibrary
 		}
 		Int32 delta = replace->get_Length() - search->get_Length();
 		if (delta > 0) {
+			if (howMany > (maxCapacity - currentLength) / delta)
+				throw new ArgumentOutOfRangeException();
 			EnsureRoomFor(delta * howMany);
 		}
 		ReplaceSubString(search, replace, startIndex, count);
-- 
2.43.0


From a88e1944c2a46018ab02dbe37d5ee206c6941ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:24 +0000
Subject: [PATCH 83/97] fix: the byte view of arrays of 2^31 bytes and more
 used a wrapped length

---
 DotNetLibrary/src/Buffer.cpp | 45 ++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/DotNetLibrary/src/Buffer.cpp b/DotNetLibrary/src/Buffer.cpp
index 5a7e077..ffc6b15 100644
--- a/DotNetLibrary/src/Buffer.cpp
+++ b/DotNetLibrary/src/Buffer.cpp
@@ -19,6 +19,19 @@
 
 namespace DotnetLibrary
 {
+	static Int64 TotalBytes(Array* array) {
+		return (Int64) array->get_Length() * DataTypeSize[array->GetElementType()];
+	}
+	static void Validate(Array* array) {
+		// Is the array present?
+		if (array == nullptr)
+			throw new ArgumentNullException();
+
+		// Is it of primitive types?
+		if (!Object::IsPrimitiveType(array->GetElementType()))
+			throw new ArgumentException();
+		array->EnsureSingleDimension();
+	}
 	void Buffer::BlockCopy(Array* src, Int32 srcOffset, Array* dst, Int32 dstOffset, Int32 count) {
 		if (src == nullptr)
 			throw new ArgumentNullException();
@@ -36,38 +49,30 @@ namespace DotnetLibrary
 			throw new ArgumentOutOfRangeException();
 		if (count < 0)
 			throw new ArgumentOutOfRangeException();
-		UInt32 sourceLength = src->get_Length() * DataTypeSize[src->GetElementType()];
-		UInt32 destinationLength = dst->get_Length() * DataTypeSize[dst->GetElementType()];
-		if ((sourceLength < (UInt32) srcOffset + (UInt32) count) || (destinationLength < (UInt32) dstOffset + (UInt32) count))
+		Int64 sourceLength = TotalBytes(src);
+		Int64 destinationLength = TotalBytes(dst);
+		if ((sourceLength < (Int64) srcOffset + count) || (destinationLength < (Int64) dstOffset + count))
 			throw new ArgumentException();
 		if (count == 0)
 			return;
 		memmove((Byte*) dst->Address(0) + dstOffset, (Byte*) src->Address(0) + srcOffset, count);
 	}
 	Int32 Buffer::ByteLength(Array* array) {
-		// Is the array present?
-		if (array == nullptr)
-			throw new ArgumentNullException();
-
-		// Is it of primitive types?
-		if (!Object::IsPrimitiveType(array->GetElementType()))
-			throw new ArgumentException();
-		array->EnsureSingleDimension();
-
-		Int32 byteLength = array->get_Length() * DataTypeSize[array->GetElementType()];
-		return byteLength;
+		Validate(array);
+		Int64 byteLength = TotalBytes(array);
+		if (byteLength > Int32Value::MaxValue)
+			throw new OverflowException();
+		return (Int32) byteLength;
 	}
 	Byte Buffer::GetByte(Array* array, Int32 index) {
-		// array argument validation done via ByteLength
-		Int32 length = ByteLength(array);
-		if (index < 0 || index >= length)
+		Validate(array);
+		if (index < 0 || index >= TotalBytes(array))
 			throw new ArgumentOutOfRangeException();
 		return (*(((Byte*) array->Address(0)) + index));
 	}
 	void Buffer::SetByte(Array* array, Int32 index, Byte value) {
-		// array argument validation done via ByteLength
-		Int32 length = ByteLength(array);
-		if (index < 0 || index >= length)
+		Validate(array);
+		if (index < 0 || index >= TotalBytes(array))
 			throw new ArgumentOutOfRangeException();
 		*(((Byte*) array->Address(0)) + index) = value;
 	}
-- 
2.43.0


From a56d5187f391fc4393d0dd9bda71cb7ebe895f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:25 +0000
Subject: [PATCH 84/97] fix: BitConverter.ToString of more than 715827882 bytes
 computed a wrapped capacity

---
 DotNetLibrary/src/BitConverter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/BitConverter.cpp b/DotNetLibrary/src/BitConverter.cpp
index 23504c8..c23925d 100644
--- a/DotNetLibrary/src/BitConverter.cpp
+++ b/DotNetLibrary/src/BitConverter.cpp
@@ -151,6 +151,8 @@ namespace DotnetLibrary
 			throw new ArgumentException();
 		if (length == 0)
 			return String::Empty;
+		if (length > Int32Value::MaxValue / 3)
+			throw new ArgumentOutOfRangeException();
 		StringBuilder builder(length * 3 - 1);
 		Int32 end = startIndex + length;
 
-- 
2.43.0


From 4e3966a3ab4be9a4ad92f84c32b824dc7e3b7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:17 +0000
Subject: [PATCH 85/97] fix: StringBuilder::Append refuses a null character
 pointer instead of reading through it

---
 DotNetLibrary/src/StringBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index f947417..098d952 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -203,6 +203,12 @@ namespace DotnetLibrary
 		if (charCount < 0) {
 			throw new ArgumentOutOfRangeException();
 		}
+		if (charCount == 0) {
+			return (this);
+		}
+		if (values == nullptr) {
+			throw new ArgumentNullException();
+		}
 		EnsureRoomFor(charCount);
 		if (where != currentLength) {
 			memmove(&chunkChars[where + charCount], &chunkChars[where], (currentLength - where) * sizeof(Char));
-- 
2.43.0


From 74888b8257b61add1d7fa1653834a468ddc5201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:46 +0000
Subject: [PATCH 86/97] fix: zone conversion used the C library's shared
 buffers, so conversions in two threads mixed up UTC and local time

---
 DotNetLibrary/src/DateTimeValue.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/DateTimeValue.cpp b/DotNetLibrary/src/DateTimeValue.cpp
index fbf7cbf..6d825f2 100644
--- a/DotNetLibrary/src/DateTimeValue.cpp
+++ b/DotNetLibrary/src/DateTimeValue.cpp
@@ -310,13 +310,17 @@ namespace DotnetLibrary
 	TimeSpan DateTimeValue::GetTimeZone() {
 #ifdef WIN32
 		_tzset();
+		time_t rawTime = time(nullptr);
+		struct tm utc = *gmtime(&rawTime);
+		struct tm* localInfo = localtime(&rawTime);
 #else
 		tzset();
-#endif
 		time_t rawTime = time(nullptr);
-		struct tm* utcInfo = gmtime(&rawTime);
-		struct tm utc = *utcInfo;
-		struct tm* localInfo = localtime(&rawTime);
+		struct tm utc;
+		struct tm local;
+		gmtime_r(&rawTime, &utc);
+		struct tm* localInfo = localtime_r(&rawTime, &local);
+#endif
 		Int32 days = localInfo->tm_yday - utc.tm_yday;
 		if (localInfo->tm_year != utc.tm_year)
 			days = localInfo->tm_year - utc.tm_year;
-- 
2.43.0


From 11f1c95790c1c67f4400e758675d3fc686faa905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:48 +0000
Subject: [PATCH 87/97] fix: a refused StringBuilder::AppendLine no longer
 leaves part of the line behind

---
 DotNetLibrary/src/StringBuilder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringBuilder.cpp b/DotNetLibrary/src/StringBuilder.cpp
index 098d952..997f00f 100644
--- a/DotNetLibrary/src/StringBuilder.cpp
+++ b/DotNetLibrary/src/StringBuilder.cpp
@@ -324,10 +324,13 @@ namespace DotnetLibrary
 		return (Append(data));
 	}
 	StringBuilder* StringBuilder::AppendLine() {
-		Append(L'\r');
-		return (Append(L'\n'));
+		return (Append(L"\r\n", 2));
 	}
 	StringBuilder* StringBuilder::AppendLine(String* value) {
+		Int32 room = maxCapacity - currentLength - (value == nullptr ? 0 : value->get_Length());
+		if (room < 2) {
+			throw new ArgumentOutOfRangeException();
+		}
 		Append(value);
 		return (AppendLine());
 	}
-- 
2.43.0


From 8ff28474e485efc35b8e646f780eca9ed9ce2d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:19 +0000
Subject: [PATCH 88/97] fix: the unsigned types refused to parse a zero with a
 minus sign

---
 DotNetLibrary/src/UInt64Value.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DotNetLibrary/src/UInt64Value.cpp b/DotNetLibrary/src/UInt64Value.cpp
index 98454e3..b35162e 100644
--- a/DotNetLibrary/src/UInt64Value.cpp
+++ b/DotNetLibrary/src/UInt64Value.cpp
@@ -157,6 +157,9 @@ namespace DotnetLibrary
 			gotNumber = false;
 		if (tooBig)
 			result = MaxValue;
+		// negative zero is zero, also for the unsigned types
+		if (result == 0)
+			sign = 1;
 		if (overflow != nullptr)
 			*overflow = tooBig;
 		return (gotNumber);
-- 
2.43.0


From abf0a8f9df5d33b291079deed887046a411f8b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:47 +0000
Subject: [PATCH 89/97] fix: Double and Single parsing accepted hexadecimal
 text

---
 DotNetLibrary/src/DoubleValue.cpp | 5 +++++
 DotNetLibrary/src/SingleValue.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index 4f6a262..b071824 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -170,6 +170,11 @@ namespace DotnetLibrary
 		Char* end = source;
 		Double rtn = wcstod(source, &end);
 		gotNumber = end != source;
+		// the C library also reads hexadecimal numbers, which are no decimal notation
+		for (Char* ptr = source; ptr < end; ++ptr) {
+			if (*ptr == L'x' || *ptr == L'X')
+				gotNumber = false;
+		}
 		if (gotNumber) {
 			for (source = end; *source != 0; ++source) {
 				if (!CharValue::IsWhiteSpace(*source))
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 0d143d3..649cff6 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -177,6 +177,11 @@ namespace DotnetLibrary
 		Char* end = source;
 		Single rtn = wcstof(source, &end);
 		gotNumber = end != source;
+		// the C library also reads hexadecimal numbers, which are no decimal notation
+		for (Char* ptr = source; ptr < end; ++ptr) {
+			if (*ptr == L'x' || *ptr == L'X')
+				gotNumber = false;
+		}
 		if (gotNumber) {
 			for (source = end; *source != 0; ++source) {
 				if (!CharValue::IsWhiteSpace(*source))
-- 
2.43.0


From cf374c72a65546abe86b599602401607c16d4d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:57 +0000
Subject: [PATCH 90/97] fix: Substring and Trim refused positions behind a NUL
 character of the text

---
 DotNetLibrary/src/StringDotNet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index dbf8156..e39c9da 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -576,7 +576,7 @@ namespace DotnetLibrary
 		if (startIndex == 0 && length == get_Length()) {
 			return this;
 		}
-		return (new String(this->characterData, startIndex, length));
+		return (new String(this->characterData + startIndex, 0, length));
 	}
 	Array* String::ToCharArray(Int32 startIndex, Int32 length) {
 		if (startIndex < 0) {
@@ -678,7 +678,7 @@ namespace DotnetLibrary
 				}
 			}
 		}
-		return (new String(get_Buffer(), start, (end - start) + 1));
+		return (new String(get_Buffer() + start, 0, (end - start) + 1));
 	}
 	Boolean String::IsWhiteSpace(Char value, Char* separators, Int32 separatorSize) {
 		for (Int32 i = 0; i < separatorSize; ++i) {
-- 
2.43.0


From 187a19e1aea71709fceb4d52e446a18d4fe98af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:58 +0000
Subject: [PATCH 91/97] fix: String::IndexOf of a text stopped at a NUL
 character

---
 DotNetLibrary/src/StringDotNet.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index e39c9da..1c9304e 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -335,12 +335,12 @@ namespace DotnetLibrary
 			throw new ArgumentNullException();
 		if (count > length - startIndex)
 			throw new ArgumentNullException();
-		Char* found = wcsstr(get_Buffer() + startIndex, value->get_Buffer());
-		if (found == nullptr)
-			return (-1);
-		Int32 delta = found - get_Buffer();
-		Int32 endIndex = startIndex + count;
-		return (delta > endIndex - value->get_Length() ? -1 : delta);
+		Int32 lastIndex = startIndex + count - value->get_Length();
+		for (Int32 i = startIndex; i <= lastIndex; ++i) {
+			if (wmemcmp(get_Buffer() + i, value->get_Buffer(), value->get_Length()) == 0)
+				return (i);
+		}
+		return (-1);
 	}
 	Int32 String::IndexOfAny(Array* arr) {
 		if (arr == nullptr)
-- 
2.43.0


From 8ab1c26aa9437151737ce7a84b0022d62f1fd806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:00 +0000
Subject: [PATCH 92/97] fix: string comparison stopped at a NUL character,
 different texts compared equal

---
 DotNetLibrary/src/StringDotNet.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 1c9304e..595debb 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -124,7 +124,7 @@ namespace DotnetLibrary
 					c2 = CharValue::IsUpper(c2) ? CharValue::ToLower(c2) : CharValue::ToUpper(c2);
 				}
 			}
-			if (c1 == L'\0' || c1 != c2)
+			if (c1 != c2)
 				return c1 > c2 ? 1 : (c1 < c2 ? -1 : 0);
 			--length;
 		}
@@ -134,6 +134,13 @@ namespace DotnetLibrary
 		result = s1 == s2 ? 0 : (s1 == nullptr ? -1 : 1);
 		return s1 == nullptr || s2 == nullptr;
 	}
+	// the shorter part sorts first when it is the beginning of the other one
+	static Int32 CompareParts(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length, Boolean ignoreCase, Boolean doOrdinal) {
+		Int32 length1 = Math::Min(length, s1->get_Length() - index1);
+		Int32 length2 = Math::Min(length, s2->get_Length() - index2);
+		Int32 result = String::Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, Math::Min(length1, length2), ignoreCase, doOrdinal);
+		return result != 0 || length1 == length2 ? result : (length1 > length2 ? 1 : -1);
+	}
 	static void CheckCompareRange(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length) {
 		if (index1 < 0 || index2 < 0 || length < 0 || index1 > s1->get_Length() || index2 > s2->get_Length())
 			throw new ArgumentOutOfRangeException();
@@ -142,7 +149,7 @@ namespace DotnetLibrary
 		Int32 result;
 		if (CompareNulls(s1, s2, result))
 			return (result);
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, Math::Max(s1->get_Length(), s2->get_Length()), ignoreCase, false));
+		return (CompareParts(s1, 0, s2, 0, Int32Value::MaxValue, ignoreCase, false));
 	}
 	Int32 String::Compare(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length,
 	                      Boolean ignoreCase) {
@@ -150,20 +157,20 @@ namespace DotnetLibrary
 		if (CompareNulls(s1, s2, result))
 			return (result);
 		CheckCompareRange(s1, index1, s2, index2, length);
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, ignoreCase, false));
+		return (CompareParts(s1, index1, s2, index2, length, ignoreCase, false));
 	}
 	Int32 String::CompareOrdinal(String* s1, String* s2) {
 		Int32 result;
 		if (CompareNulls(s1, s2, result))
 			return (result);
-		return (Compare(s1->get_Buffer(), 0, s2->get_Buffer(), 0, Math::Max(s1->get_Length(), s2->get_Length()), false, true));
+		return (CompareParts(s1, 0, s2, 0, Int32Value::MaxValue, false, true));
 	}
 	Int32 String::CompareOrdinal(String* s1, const Int32 index1, String* s2, const Int32 index2, const Int32 length) {
 		Int32 result;
 		if (CompareNulls(s1, s2, result))
 			return (result);
 		CheckCompareRange(s1, index1, s2, index2, length);
-		return (Compare(s1->get_Buffer(), index1, s2->get_Buffer(), index2, length, false, true));
+		return (CompareParts(s1, index1, s2, index2, length, false, true));
 	}
 	Int32 String::CompareTo(Object* value) {
 		if (value == nullptr)
-- 
2.43.0


From 7051e5ce64ded3a06db7c7c694fe235fff4879fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:56 +0000
Subject: [PATCH 93/97] fix: Double and Single parsing ignored whatever follows
 a NUL character

---
 DotNetLibrary/src/DoubleValue.cpp | 5 +++--
 DotNetLibrary/src/SingleValue.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/DotNetLibrary/src/DoubleValue.cpp b/DotNetLibrary/src/DoubleValue.cpp
index b071824..f12fe9c 100644
--- a/DotNetLibrary/src/DoubleValue.cpp
+++ b/DotNetLibrary/src/DoubleValue.cpp
@@ -168,6 +168,7 @@ namespace DotnetLibrary
 			--sourceLength;
 		}
 		Char* end = source;
+		Char* textEnd = source + sourceLength;
 		Double rtn = wcstod(source, &end);
 		gotNumber = end != source;
 		// the C library also reads hexadecimal numbers, which are no decimal notation
@@ -176,8 +177,8 @@ namespace DotnetLibrary
 				gotNumber = false;
 		}
 		if (gotNumber) {
-			for (source = end; *source != 0; ++source) {
-				if (!CharValue::IsWhiteSpace(*source))
+			for (source = end; source < textEnd; ++source) {
+				if (*source != 0 && !CharValue::IsWhiteSpace(*source))
 					gotNumber = false;
 			}
 		}
diff --git a/DotNetLibrary/src/SingleValue.cpp b/DotNetLibrary/src/SingleValue.cpp
index 649cff6..d837b5f 100644
--- a/DotNetLibrary/src/SingleValue.cpp
+++ b/DotNetLibrary/src/SingleValue.cpp
@@ -175,6 +175,7 @@ namespace DotnetLibrary
 			--sourceLength;
 		}
 		Char* end = source;
+		Char* textEnd = source + sourceLength;
 		Single rtn = wcstof(source, &end);
 		gotNumber = end != source;
 		// the C library also reads hexadecimal numbers, which are no decimal notation
@@ -183,8 +184,8 @@ namespace DotnetLibrary
 				gotNumber = false;
 		}
 		if (gotNumber) {
-			for (source = end; *source != 0; ++source) {
-				if (!CharValue::IsWhiteSpace(*source))
+			for (source = end; source < textEnd; ++source) {
+				if (*source != 0 && !CharValue::IsWhiteSpace(*source))
 					gotNumber = false;
 			}
 		}
-- 
2.43.0


From 555627d76276afe191064d126eb70cbd2bf15cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:20 +0000
Subject: [PATCH 94/97] fix: a String made from a null character pointer
 crashed instead of being empty

---
 DotNetLibrary/src/StringDotNet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index 595debb..ea2573f 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -30,6 +30,8 @@ namespace DotnetLibrary
 	                (Char) 0x2008, (Char) 0x2009, (Char) 0x200A, (Char) 0x200B, (Char) 0x3000, (Char) 0xFEFF };
 
 	String::String(const Char* string) {
+		if (string == nullptr)
+			string = L"";
 		this->length = (Int32) wcslen(string);
 		characterData = (Char*) string;
 		allocate = false;
-- 
2.43.0


From 0df864e97af8722cdcec3fe394d638c4ce8b3bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:16 +0000
Subject: [PATCH 95/97] fix: Array.SetValue stored any object in an array of
 strings, where it was then used as a string

---
 DotNetLibrary/src/Array.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 7e86c4e..098d7ea 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -284,6 +284,8 @@ namespace DotnetLibrary
 				*((Object**) addr) = value;
 				break;
 			case StringType:
+				if (value->GetRawDataType() != StringType)
+					throw new InvalidCastException();
 				*((Object**) addr) = value;
 				break;
 			case BooleanType:
-- 
2.43.0


From f3f8712f3739fa11508b6994d2b70f394bba3157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:17 +0000
Subject: [PATCH 96/97] fix: Array.GetValue and SetValue ignored an index array
 without indexes instead of refusing it

---
 DotNetLibrary/src/Array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/Array.cpp b/DotNetLibrary/src/Array.cpp
index 098d7ea..ab4c336 100644
--- a/DotNetLibrary/src/Array.cpp
+++ b/DotNetLibrary/src/Array.cpp
@@ -184,7 +184,7 @@ namespace DotnetLibrary
 		if (arraySize > 3)
 			throw new NotImplementedException();
 		if (arraySize == 0)
-			return (nullptr);
+			throw new ArgumentException();
 		Int32 index1 = *(Int32*) indexes->Address(0, -1, -1);
 		Int32 index2 = arraySize > 1 ? *(Int32*) indexes->Address(1, -1, -1) : -1;
 		Int32 index3 = arraySize > 2 ? *(Int32*) indexes->Address(2, -1, -1) : -1;
@@ -345,7 +345,7 @@ namespace DotnetLibrary
 		if (arraySize > 3)
 			throw new NotImplementedException();
 		if (arraySize == 0)
-			return;
+			throw new ArgumentException();
 		Int32 index1 = *(Int32*) indexes->Address(0, -1, -1);
 		Int32 index2 = arraySize > 1 ? *(Int32*) indexes->Address(1, -1, -1) : -1;
 		Int32 index3 = arraySize > 2 ? *(Int32*) indexes->Address(2, -1, -1) : -1;
-- 
2.43.0


From 0d09e9c543d1b3d7ceb0528cf2040666a8c93312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:18 +0000
Subject: [PATCH 97/97] fix: String.Equals of a null text and a null object was
 false

---
 DotNetLibrary/src/StringDotNet.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/DotNetLibrary/src/StringDotNet.cpp b/DotNetLibrary/src/StringDotNet.cpp
index ea2573f..a5810af 100644
--- a/DotNetLibrary/src/StringDotNet.cpp
+++ b/DotNetLibrary/src/StringDotNet.cpp
@@ -290,12 +290,16 @@ namespace DotnetLibrary
 		return !op_Inequality(this, object);
 	}
 	Boolean String::Equals(String* object, Object* object2) {
-		if (object2 == nullptr || object2->GetRawDataType() != StringType)
+		if (object2 == nullptr)
+			return (object == nullptr);
+		if (object2->GetRawDataType() != StringType)
 			return (false);
 		return !op_Inequality(object, (String*) object2);
 	}
 	Boolean String::Equals(Object* object, String* object2) {
-		if (object == nullptr || object->GetRawDataType() != StringType)
+		if (object == nullptr)
+			return (object2 == nullptr);
+		if (object->GetRawDataType() != StringType)
 			return (false);
 		return !op_Inequality((String*) object, object2);
 	}
-- 
2.43.0

