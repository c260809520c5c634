From 78630c258885e890080de1b2b462b55a72c26ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:54 +0000
Subject: [PATCH 001/154] fix: release remaining objects at exit without
 visiting freed ones

Memory::deinit walked the object map while deleting an object could erase
further entries or delete an object twice when objects reference each other.
Detach every object first, then delete them.
---
 Projects/Core/Core/VirtualMachine/Memory.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index eb4fdd1..ad5a5d4 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -7,6 +7,7 @@
 #else
 #	include <cstdint>
 #endif
+#include <vector>
 
 // Project includes
 #include <Core/Common/Exceptions.h>
@@ -47,6 +48,8 @@ void Memory::add(const Runtime::Reference& ref)
 
 void Memory::deinit()
 {
+	std::vector<Runtime::Object*> objects;
+
 	for ( auto& it : mMemory ) {
 		/*
 		if( it.second.mObject ) {
@@ -56,8 +59,15 @@ void Memory::deinit()
 
 		//it.second.mObject->Destructor();
 
+		// detach all objects first because deleting an object drops the references to its members,
+		// which would otherwise modify our memory while iterating over it
+		objects.push_back(it.second.mObject);
+		it.second.mObject = nullptr;
+	}
+
+	for ( auto* object : objects ) {
 		// force delete
-		delete it.second.mObject;
+		delete object;
 	}
 
 	mMemory.clear();
-- 
2.43.0


From 1a5c3b2097b6c2a478058d94fc577c8795c4054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:49 +0000
Subject: [PATCH 002/154] fix: support bitwise and/or for int16 and int64 at
 runtime

The type check accepts these operations but the runtime had no case for them
and failed with an invalid operation error.
---
 .../Core/Core/Runtime/OperatorOverloading.cpp | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index d1fbc26..2df6db1 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -124,12 +124,24 @@ void operator_binary_bitand( Object* lvalue, Object* rvalue )
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int16Type::TYPENAME ) {
+		Int16Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitand( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == Int32Type::TYPENAME ) {
 		Int32Type tmp( lvalue->getValue().toInt() );
 		tmp.operator_bitand( rvalue );
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int64Type::TYPENAME ) {
+		Int64Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitand( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
 		tmp.operator_bitand( rvalue );
@@ -224,12 +236,24 @@ void operator_binary_bitor( Object* lvalue, Object* rvalue )
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int16Type::TYPENAME ) {
+		Int16Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitor( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == Int32Type::TYPENAME ) {
 		Int32Type tmp( lvalue->getValue().toInt() );
 		tmp.operator_bitor( rvalue );
 
 		lvalue->assign( tmp );
 	}
+	else if ( target == Int64Type::TYPENAME ) {
+		Int64Type tmp( lvalue->getValue().toInt() );
+		tmp.operator_bitor( rvalue );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == StringType::TYPENAME ) {
 		StringType tmp( lvalue->getValue().toStdString() );
 		tmp.operator_bitor( rvalue );
-- 
2.43.0


From 1587b577994fe752cf10ce97107e869e38ad2486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:49 +0000
Subject: [PATCH 003/154] fix: keep results of int16 arithmetic within the
 range of int16

The operations were computed as int and stored without being narrowed, so an
int16 variable could hold values like 65534.
---
 .../Core/Core/Runtime/BuildInTypes/Int16Type.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
index 590816b..7a848df 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
@@ -150,7 +150,7 @@ void Int16Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) / static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) / static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -265,7 +265,7 @@ void Int16Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) % static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) % static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -285,7 +285,7 @@ void Int16Type::operator_multiply( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) * static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) * static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -305,7 +305,7 @@ void Int16Type::operator_plus( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) + static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) + static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -325,7 +325,7 @@ void Int16Type::operator_subtract( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int16_t>( mValue.toInt() ) - static_cast<int16_t>( other->getValue().toInt() );
+		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) - static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -334,17 +334,17 @@ void Int16Type::operator_subtract( const Object* other )
 
 void Int16Type::operator_unary_decrement()
 {
-	mValue = static_cast<int16_t>( mValue.toInt() ) - 1;
+	mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) - 1 );
 }
 
 void Int16Type::operator_unary_increment()
 {
-	mValue = static_cast<int16_t>( mValue.toInt() ) + 1;
+	mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) + 1 );
 }
 
 void Int16Type::operator_unary_minus()
 {
-	mValue = static_cast<int16_t>( mValue.toInt() ) * -1;
+	mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) * -1 );
 }
 
 void Int16Type::operator_unary_not()
-- 
2.43.0


From 455d7cc463089daef30e32306f5fef3365311435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:44:07 +0000
Subject: [PATCH 004/154] fix: report integer division by zero instead of
 crashing

Dividing by zero, and dividing the smallest value by -1, killed the
interpreter with a floating point exception signal.
---
 .../Core/Runtime/BuildInTypes/Int16Type.cpp   |  8 ++++++++
 .../Core/Runtime/BuildInTypes/Int32Type.cpp   | 12 +++++++++--
 .../Core/Runtime/BuildInTypes/Int64Type.cpp   | 20 +++++++++++++++++++
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
index 7a848df..87caf01 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
@@ -150,6 +150,10 @@ void Int16Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
+		if ( static_cast<int16_t>( other->getValue().toInt() ) == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
 		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) / static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
@@ -265,6 +269,10 @@ void Int16Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
+		if ( static_cast<int16_t>( other->getValue().toInt() ) == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
 		mValue = static_cast<int16_t>( static_cast<int16_t>( mValue.toInt() ) % static_cast<int16_t>( other->getValue().toInt() ) );
 		return;
 	}
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
index cb2d385..b6cb116 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
@@ -150,7 +150,11 @@ void Int32Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int32_t>( mValue.toInt() ) / static_cast<int32_t>( other->getValue().toInt() );
+		if ( static_cast<int32_t>( other->getValue().toInt() ) == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		mValue = static_cast<int32_t>( static_cast<int64_t>( static_cast<int32_t>( mValue.toInt() ) ) / static_cast<int32_t>( other->getValue().toInt() ) );
 		return;
 	}
 
@@ -265,7 +269,11 @@ void Int32Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
          other->isEnumerationValue() ) {
-		mValue = static_cast<int32_t>( mValue.toInt() ) % static_cast<int32_t>( other->getValue().toInt() );
+		if ( static_cast<int32_t>( other->getValue().toInt() ) == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		mValue = static_cast<int32_t>( static_cast<int64_t>( static_cast<int32_t>( mValue.toInt() ) ) % static_cast<int32_t>( other->getValue().toInt() ) );
 		return;
 	}
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
index 45eb3bb..9ce51bd 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
@@ -150,6 +150,16 @@ void Int64Type::operator_divide( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
+		if ( static_cast<int64_t>( other->getValue().toInt() ) == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator/: division by zero" );
+		}
+
+		if ( other->getValue().toInt() == -1 ) {
+			// avoid the overflow of dividing the smallest possible value
+			mValue = static_cast<int64_t>( mValue.toInt() ) * -1;
+			return;
+		}
+
 		mValue = static_cast<int64_t>( mValue.toInt() ) / static_cast<int64_t>( other->getValue().toInt() );
 		return;
 	}
@@ -265,6 +275,16 @@ void Int64Type::operator_modulo( const Object* other )
 		 target == Int64Type::TYPENAME ||
 		 target == StringType::TYPENAME ||
 		 other->isEnumerationValue() ) {
+		if ( static_cast<int64_t>( other->getValue().toInt() ) == 0 ) {
+			throw Runtime::Exceptions::InvalidOperation( QualifiedTypename() + ".operator%: division by zero" );
+		}
+
+		if ( other->getValue().toInt() == -1 ) {
+			// avoid the overflow of dividing the smallest possible value
+			mValue = static_cast<int64_t>( 0 );
+			return;
+		}
+
 		mValue = static_cast<int64_t>( mValue.toInt() ) % static_cast<int64_t>( other->getValue().toInt() );
 		return;
 	}
-- 
2.43.0


From aa1953b771f38a43d123f0457d241c16c5a94d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:50 +0000
Subject: [PATCH 005/154] fix: support unary plus for numeric types at runtime

The type check accepts unary plus for all numeric types but evaluating it
failed with an invalid operation error.
---
 Projects/Core/Core/Runtime/BuildInTypes/DoubleType.cpp | 5 +++++
 Projects/Core/Core/Runtime/BuildInTypes/DoubleType.h   | 1 +
 Projects/Core/Core/Runtime/BuildInTypes/FloatType.cpp  | 5 +++++
 Projects/Core/Core/Runtime/BuildInTypes/FloatType.h    | 1 +
 Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp  | 5 +++++
 Projects/Core/Core/Runtime/BuildInTypes/Int16Type.h    | 1 +
 Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp  | 5 +++++
 Projects/Core/Core/Runtime/BuildInTypes/Int32Type.h    | 1 +
 Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp  | 5 +++++
 Projects/Core/Core/Runtime/BuildInTypes/Int64Type.h    | 1 +
 10 files changed, 30 insertions(+)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/DoubleType.cpp b/Projects/Core/Core/Runtime/BuildInTypes/DoubleType.cpp
index ed9e476..4c090e9 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/DoubleType.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/DoubleType.cpp
@@ -279,6 +279,11 @@ void DoubleType::operator_unary_not()
 	mValue = mValue.toDouble() ? 0.0 : 1.0;
 }
 
+void DoubleType::operator_unary_plus()
+{
+	// nothing to do here
+}
+
 
 }
 }
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/DoubleType.h b/Projects/Core/Core/Runtime/BuildInTypes/DoubleType.h
index 55cc75e..70c3a8f 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/DoubleType.h
+++ b/Projects/Core/Core/Runtime/BuildInTypes/DoubleType.h
@@ -45,6 +45,7 @@ public:	// Operators
 	void operator_unary_increment();
 	void operator_unary_minus();
 	void operator_unary_not();
+	void operator_unary_plus();
 };
 
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/FloatType.cpp b/Projects/Core/Core/Runtime/BuildInTypes/FloatType.cpp
index 186fa38..fa653e2 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/FloatType.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/FloatType.cpp
@@ -271,6 +271,11 @@ void FloatType::operator_unary_not()
 	mValue = mValue.toFloat() ? 0.0f : 1.0f;
 }
 
+void FloatType::operator_unary_plus()
+{
+	// nothing to do here
+}
+
 
 }
 }
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/FloatType.h b/Projects/Core/Core/Runtime/BuildInTypes/FloatType.h
index 1980e49..13e0f4c 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/FloatType.h
+++ b/Projects/Core/Core/Runtime/BuildInTypes/FloatType.h
@@ -45,6 +45,7 @@ public:	// Operators
 	void operator_unary_increment();
 	void operator_unary_minus();
 	void operator_unary_not();
+	void operator_unary_plus();
 };
 
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
index 87caf01..2a80fbd 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.cpp
@@ -360,6 +360,11 @@ void Int16Type::operator_unary_not()
 	mValue = static_cast<int16_t>( !mValue.toBool() );
 }
 
+void Int16Type::operator_unary_plus()
+{
+	// nothing to do here
+}
+
 
 }
 }
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.h b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.h
index 3d6bed1..3e470cf 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.h
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int16Type.h
@@ -51,6 +51,7 @@ public:	// Operators
 	void operator_unary_increment();
 	void operator_unary_minus();
 	void operator_unary_not();
+	void operator_unary_plus();
 };
 
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
index b6cb116..938bdee 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.cpp
@@ -360,6 +360,11 @@ void Int32Type::operator_unary_not()
 	mValue = static_cast<int32_t>( !mValue.toBool() );
 }
 
+void Int32Type::operator_unary_plus()
+{
+	// nothing to do here
+}
+
 
 }
 }
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.h b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.h
index 9f070f1..e8db67e 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.h
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int32Type.h
@@ -51,6 +51,7 @@ public:	// Operators
 	void operator_unary_increment();
 	void operator_unary_minus();
 	void operator_unary_not();
+	void operator_unary_plus();
 };
 
 
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
index 9ce51bd..1b58d27 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.cpp
@@ -372,6 +372,11 @@ void Int64Type::operator_unary_not()
 	mValue = static_cast<int64_t>( !mValue.toBool() );
 }
 
+void Int64Type::operator_unary_plus()
+{
+	// nothing to do here
+}
+
 
 }
 }
diff --git a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.h b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.h
index c50ce23..2f137c4 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.h
+++ b/Projects/Core/Core/Runtime/BuildInTypes/Int64Type.h
@@ -51,6 +51,7 @@ public:	// Operators
 	void operator_unary_increment();
 	void operator_unary_minus();
 	void operator_unary_not();
+	void operator_unary_plus();
 };
 
 
-- 
2.43.0


From 710fae88b1f6cff4fa8b7b54cf27b336fc03ea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:22 +0000
Subject: [PATCH 006/154] fix: remove the scope of a for loop when it is left
 early

Leaving a for loop with break, return or an exception kept the loop variable
in scope, so declaring the same name afterwards failed with a duplicate
identifier and objects owned by the scope were released too late. Exceptions
thrown by the initialization or iteration are no longer lost either.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 60 ++++++++++++----------
 Projects/Core/Core/AST/TreeInterpreter.h   |  1 +
 2 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 53fed83..0556bc9 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -833,6 +833,37 @@ void TreeInterpreter::process(Statements* statements)
 	}
 }
 
+void TreeInterpreter::processFor(ForStatement* node)
+{
+	Runtime::Object condition;
+	while ( mControlFlow == Runtime::ControlFlow::Normal ) {	// initialization or iteration may have thrown
+		if ( node->mCondition ) {
+			tryControl(evaluate(node->mCondition, &condition));		// evaluate loop condition
+
+			// validate loop condition
+			if ( !isTrue(condition) ) {
+				break;
+			}
+		}
+
+		// execute statement
+		visit(node->mStatement);
+
+		// check (and reset) control flow
+		switch ( mControlFlow ) {
+			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; return;
+			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;
+			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; return;
+			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;
+			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; return;
+			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; return;
+		}
+
+		// execute arbitrary iteration node type
+		visit(node->mIteration);
+	}
+}
+
 void TreeInterpreter::pushScope(IScope* scope)
 {
 	bool allowDelete = !scope;
@@ -1023,33 +1054,8 @@ void TreeInterpreter::visitFor(ForStatement* node)
 	// execute initialization statement
 	visit(node->mInitialization);
 
-	Runtime::Object condition;
-	for  ( ; ; ) {
-		if ( node->mCondition ) {
-			tryControl(evaluate(node->mCondition, &condition));		// evaluate loop condition
-
-			// validate loop condition
-			if ( !isTrue(condition) ) {
-				break;
-			}
-		}
-
-		// execute statement
-		visit(node->mStatement);
-
-		// check (and reset) control flow
-		switch ( mControlFlow ) {
-			case Runtime::ControlFlow::Break: mControlFlow = Runtime::ControlFlow::Normal; return;
-			case Runtime::ControlFlow::Continue: mControlFlow = Runtime::ControlFlow::Normal; break;
-			case Runtime::ControlFlow::ExitProgram: mControlFlow = Runtime::ControlFlow::ExitProgram; return;
-			case Runtime::ControlFlow::Normal: mControlFlow = Runtime::ControlFlow::Normal; break;
-			case Runtime::ControlFlow::Return: mControlFlow = Runtime::ControlFlow::Return; return;
-			case Runtime::ControlFlow::Throw: mControlFlow = Runtime::ControlFlow::Throw; return;
-		}
-
-		// execute arbitrary iteration node type
-		visit(node->mIteration);
-	}
+	// the loop scope has to be removed no matter how the loop is left
+	processFor(node);
 
 	// pop scope to remove loop variable
 	popScope();
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index a27ec9f..9f5438b 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -53,6 +53,7 @@ public: // Execution
 
 private:
 	void process(Statements* statements);
+	void processFor(ForStatement* node);
 
 	inline void visit(Node* node);
 
-- 
2.43.0


From 18f69de20718e795c6279f0ad19b8c257cdf15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:22 +0000
Subject: [PATCH 007/154] fix: propagate the outcome of a constructor called by
 new

A constructor using return made the calling method return as well, and a
constructor that throws did not stop the evaluation of the surrounding
expression.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 0556bc9..85eb362 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -352,6 +352,12 @@ void TreeInterpreter::evaluateNewExpression(NewExpression* exp, Runtime::Object*
 
 	// execute new object's constructor
 	mControlFlow = result->Constructor(params);
+
+	switch ( mControlFlow ) {
+		case Runtime::ControlFlow::ExitProgram: throw Runtime::ControlFlow::ExitProgram;	// promote control flow
+		case Runtime::ControlFlow::Throw:       throw Runtime::ControlFlow::Throw;			// promote control flow
+		default: mControlFlow = Runtime::ControlFlow::Normal; break;
+	}
 }
 
 void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Object* result)
-- 
2.43.0


From 77a1b5f60514fd756a56c5a6762da27b2200e7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:22 +0000
Subject: [PATCH 008/154] fix: propagate exceptions thrown by the right side of
 an assignment expression

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 85eb362..68bfb62 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -109,7 +109,7 @@ void TreeInterpreter::evaluateAssignmentExpression(AssignmentExpression* exp, Ru
 
 	Runtime::Object right;
 	// evaluate right expression
-	tryControl(evaluate(exp->mRHS, &right));
+	evaluate(exp->mRHS, &right);
 
 	// execute assignment to lvalue (this may involve a type cast)
 	Runtime::operator_binary_assign(&lvalue, &right);
-- 
2.43.0


From b240f43b10393ee1902e64e4385ef2ed044f9cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:22 +0000
Subject: [PATCH 009/154] fix: restore scope when a member access throws

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 68bfb62..d75bef6 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -368,7 +368,14 @@ void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Obj
 	pushScope(&left);
 
 	Runtime::Object right;
-	evaluate(exp->mRHS, &right);
+	try {
+		evaluate(exp->mRHS, &right);
+	}
+	catch ( Runtime::ControlFlow::E& ) {
+		popScope();
+
+		throw;
+	}
 
 	popScope();
 
-- 
2.43.0


From d17328135647ee42caad5baa21296a70a35bab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:22 +0000
Subject: [PATCH 010/154] fix: handle exceptions thrown by the iterator of a
 foreach loop

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 42 ++++++++++++++--------
 Projects/Core/Core/AST/TreeInterpreter.h   |  1 +
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index d75bef6..f8dea8f 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -265,6 +265,22 @@ void TreeInterpreter::evaluateLiteral(LiteralExpression* exp, Runtime::Object* r
 	}
 }
 
+void TreeInterpreter::evaluateMember(Runtime::Object* object, MethodExpression* exp, Runtime::Object* result)
+{
+	pushScope(object);
+
+	try {
+		evaluateMethodExpression(exp, result);
+	}
+	catch ( Runtime::ControlFlow::E& ) {
+		popScope();
+
+		throw;
+	}
+
+	popScope();
+}
+
 void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result)
 {
 	std::list<Runtime::Object> objectList;	// this is a hack to prevent that the provided object parameters run out of scope
@@ -1084,15 +1100,11 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 		Runtime::Object collection;
 		tryControl(evaluate(node->mCollectionExpression, &collection));
 
-		pushScope(&collection);
-
-			evaluateMethodExpression(node->mGetIteratorExpression, &iterator);
-
-		popScope();
+		tryControl(evaluateMember(&collection, node->mGetIteratorExpression, &iterator));
 	}
 	else {
 		// an iterator has been provided instead of a collection
-		evaluateMethodExpression(node->mGetIteratorExpression, &iterator);
+		tryControl(evaluateMethodExpression(node->mGetIteratorExpression, &iterator));
 	}
 
 	const TypeDeclaration* typeDeclaration = node->mTypeDeclaration;
@@ -1102,11 +1114,7 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 		// {
 		Runtime::Object condition;
 
-		pushScope(&iterator);
-
-			evaluateMethodExpression(node->mHasNextExpression, &condition);
-
-		popScope();
+		tryControl(evaluateMember(&iterator, node->mHasNextExpression, &condition));
 
 		if ( !isTrue(condition) ) {	// do we have more items to iterate over?
 			break;
@@ -1123,11 +1131,15 @@ void TreeInterpreter::visitForeach(ForeachStatement* node)
 			// }
 
 			// iterate over next item
-			pushScope(&iterator);
-
-				evaluateMethodExpression(node->mNextExpression, loopVariable);
+			try {
+				evaluateMember(&iterator, node->mNextExpression, loopVariable);
+			}
+			catch ( Runtime::ControlFlow::E& e ) {
+				popScope();
 
-			popScope();
+				mControlFlow = e;
+				return;
+			}
 
 			// set mutability after initializing
 			loopVariable->setMutability(typeDeclaration->mIsConst ? Mutability::Const : Mutability::Modify);
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index 9f5438b..042fdd7 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -99,6 +99,7 @@ private:
 	void evaluateCopyExpression(CopyExpression* exp, Runtime::Object* result);
 	void evaluateIsExpression(IsExpression* exp, Runtime::Object* result);
 	void evaluateLiteral(LiteralExpression* exp, Runtime::Object* result);
+	void evaluateMember(Runtime::Object* object, MethodExpression* exp, Runtime::Object* result);
 	void evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result);
 	void evaluateNewExpression(NewExpression* exp, Runtime::Object* result);
 	void evaluateScopeExpression(ScopeExpression* exp, Runtime::Object* result);
-- 
2.43.0


From fefe05ccb84a165ec4d6ee34a8b05af43af52059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:22 +0000
Subject: [PATCH 011/154] fix: keep the pending exception while nested
 exceptions are handled

An exception that is thrown and caught within a finally or catch block
replaced the surrounding one, so a rethrow or an outer handler received the
wrong exception.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index f8dea8f..563ba7b 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1345,6 +1345,9 @@ void TreeInterpreter::visitThrow(ThrowStatement* node)
 
 void TreeInterpreter::visitTry(TryStatement* node)
 {
+	// remember the exception that is currently being handled (if any)
+	const Runtime::ExceptionData previousException = mThread->exception();
+
 	// execute try-block
 	visitStatements(node->mTryBlock);
 
@@ -1410,6 +1413,11 @@ void TreeInterpreter::visitTry(TryStatement* node)
 	if ( mControlFlow == Runtime::ControlFlow::Normal ) {
 		mControlFlow = tmpControlFlow;
 	}
+
+	// our own exception has been handled, so a surrounding catch-block gets its exception back
+	if ( mControlFlow != Runtime::ControlFlow::ExitProgram && mControlFlow != Runtime::ControlFlow::Throw ) {
+		mThread->exception(previousException);
+	}
 }
 
 Runtime::Object* TreeInterpreter::visitTypeDeclaration(TypeDeclaration* node)
-- 
2.43.0


From d588652fd88318eb181d700abdb290e29358a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:22 +0000
Subject: [PATCH 012/154] fix: unwind scopes when the program is left by exit

exit() skipped the removal of stack frames and scopes of the called method
which corrupted the memory of the interpreter.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp           | 2 +-
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 563ba7b..e1e3642 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1066,7 +1066,7 @@ void TreeInterpreter::visitExit(ExitStatement* node)
 
 	mThread->exception(data, node->token().position());
 
-	throw Runtime::ControlFlow::ExitProgram;
+	mControlFlow = Runtime::ControlFlow::ExitProgram;
 }
 
 void TreeInterpreter::visitExpression(Expression* expression)
diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 02afab8..81170f2 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -439,6 +439,9 @@ void VirtualMachine::run(Script* script, const ParameterList& params, Runtime::O
 	auto* thread = Controller::Instance().threads()->createThread();
 
 	auto controlflow = thread->execute(nullptr, main, params, result);
+	if ( controlflow == Runtime::ControlFlow::ExitProgram ) {
+		throw Runtime::ControlFlow::ExitProgram;
+	}
 	if ( controlflow == Runtime::ControlFlow::Throw ) {
 		throw Runtime::ControlFlow::Throw;
 	}
-- 
2.43.0


From 86cbebbbe4a7847e90af6b844115c41c8c636d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:02 +0000
Subject: [PATCH 013/154] fix: return the exit code given to exit

The interpreter always finished with status 0 and printed a stack trace when
a script called exit().
---
 Projects/slang/main.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Projects/slang/main.cpp b/Projects/slang/main.cpp
index 85158bf..f5840f3 100644
--- a/Projects/slang/main.cpp
+++ b/Projects/slang/main.cpp
@@ -245,12 +245,14 @@ int main( int argc, const char* argv[] )
 		return 0;
 	}
 	catch ( Runtime::ControlFlow::E &e ) {
-		Utils::Common::printStackTrace();
-
 		if ( e == Runtime::ControlFlow::ExitProgram ) {
-			return 0;
+			// the exit statement stores its exit code as exception data
+			return Controller::Instance().thread( 0 )->exception().getData()->getValue().toInt();
 		}
-		else if ( e == Runtime::ControlFlow::Throw ) {
+
+		Utils::Common::printStackTrace();
+
+		if ( e == Runtime::ControlFlow::Throw ) {
 			OSerror( "Exception thrown in " << Controller::Instance().thread( 0 )->exception().getPosition().toString() << std::endl
 			         << Controller::Instance().thread( 0 )->exception().getData()->ToString() );
 		}
-- 
2.43.0


From 9a88d1a7544aca96812bbf6eb68f4b5c0fa56bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:45 +0000
Subject: [PATCH 014/154] fix: provide exception data if an invalid object is
 validated

Without it an uncaught exception raised by the validate operator crashed the
interpreter while printing the error.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index e1e3642..4180e43 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -573,7 +573,19 @@ void TreeInterpreter::evaluateUnaryExpression(UnaryExpression* exp, Runtime::Obj
 			// boolean expressions
 			// {
 			case Token::Type::OPERATOR_NOT:      Runtime::operator_unary_not( result ); break;
-			case Token::Type::OPERATOR_VALIDATE: Runtime::operator_unary_validate( result ); break;
+			case Token::Type::OPERATOR_VALIDATE: {
+				if ( !result->isValid() ) {
+					auto* data = mRepository->createInstance(Runtime::StringType::TYPENAME, ANONYMOUS_OBJECT);
+					data->setValue( std::string("NullPointerException: ") + printExpression(exp->mExpression) );
+
+					mThread->exception() = Runtime::ExceptionData(data);
+
+					// notify our debugger that an exception has been thrown
+					DEBUGGER( notifyExceptionThrow(getScope(), Token()) );
+				}
+
+				Runtime::operator_unary_validate( result );
+			} break;
 			// }
 
 			// math expressions
-- 
2.43.0


From 2acc4540a0194458b369f95889ce41f050408213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:45 +0000
Subject: [PATCH 015/154] fix: propagate exceptions thrown by an equality
 operator used by switch

---
 Projects/Core/Core/AST/TreeInterpreter.cpp         | 5 ++++-
 Projects/Core/Core/Runtime/OperatorOverloading.cpp | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 4180e43..d42f287 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1312,7 +1312,10 @@ void TreeInterpreter::visitSwitch(SwitchStatement* node)
 			tryControl(evaluate(stmt->mCaseExpression, &caseValue));
 
 			// check if our switch-expression and our case-expression match
-			if ( Runtime::operator_binary_equal(&value, &caseValue) ) {
+			bool matches = false;
+			tryControl(matches = Runtime::operator_binary_equal(&value, &caseValue));
+
+			if ( matches ) {
 				caseMatched = true;
 
 				// both expressions matched, so we need to execute this case-block
diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index 2df6db1..4b29ce3 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -379,7 +379,11 @@ bool operator_binary_equal( Object* lvalue, Object* rvalue )
 
 	if ( lvalue->resolveMethod( "operator==", params, false, Visibility::Public ) ) {
 		Object tmp;
-		lvalue->execute( &tmp, "operator==", params );
+		const auto controlflow = lvalue->execute( &tmp, "operator==", params );
+		if ( controlflow == ControlFlow::ExitProgram || controlflow == ControlFlow::Throw ) {
+			throw controlflow;	// promote control flow
+		}
+
 		return isTrue( tmp );
 	}
 
-- 
2.43.0


From fc7c7c3f37064b6b79651031515df2516f407c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:28 +0000
Subject: [PATCH 016/154] fix: release objects held by global variables before
 the global scope is deleted

Their destructors were executed after the methods they belong to had been
deleted, which crashed the interpreter at exit.
---
 .../Core/Core/VirtualMachine/Controller.cpp   | 22 +++++++++++++++++++
 .../Core/Core/VirtualMachine/Controller.h     |  2 ++
 2 files changed, 24 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/Controller.cpp b/Projects/Core/Core/VirtualMachine/Controller.cpp
index 502b3f6..94b5802 100644
--- a/Projects/Core/Core/VirtualMachine/Controller.cpp
+++ b/Projects/Core/Core/VirtualMachine/Controller.cpp
@@ -27,6 +27,9 @@ void Controller::deinit()
 {
 	assert(mPhase > Phase::Startup);
 
+	// objects have to be released before any method or blueprint their destructors need is gone
+	releaseObjects(mGlobalScope);
+
 	delete mGlobalScope;
 	mGlobalScope = nullptr;
 
@@ -82,6 +85,25 @@ void Controller::phase(Controller::Phase::E value)
 	mPhase = value;
 }
 
+void Controller::releaseObjects(MethodScope* scope) const
+{
+	const MethodScope::Symbols symbols(scope->beginSymbols(), scope->endSymbols());
+
+	for ( const auto& symbol : symbols ) {
+		switch ( symbol.second->getSymbolType() ) {
+			case Symbol::IType::NamespaceSymbol:
+				releaseObjects(dynamic_cast<Common::Namespace*>(symbol.second));
+				break;
+			case Symbol::IType::ObjectSymbol:
+				scope->undefine(symbol.first);
+				delete symbol.second;
+				break;
+			default:
+				break;
+		}
+	}
+}
+
 Repository* Controller::repository() const
 {
 	return mRepository;
diff --git a/Projects/Core/Core/VirtualMachine/Controller.h b/Projects/Core/Core/VirtualMachine/Controller.h
index 9cd3f8c..e1b5dd1 100644
--- a/Projects/Core/Core/VirtualMachine/Controller.h
+++ b/Projects/Core/Core/VirtualMachine/Controller.h
@@ -68,6 +68,8 @@ public:
 private:
 	Controller();
 
+	void releaseObjects(MethodScope* scope) const;
+
 private:
 	Common::Namespace* mGlobalScope;
 	Memory* mMemory;
-- 
2.43.0


From e6be95fd2672930b20e2421346331d3475791284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:06 +0000
Subject: [PATCH 017/154] fix: release thrown objects after their exception has
 been handled

Objects that had been thrown were never released, so their destructor was
not executed.
---
 Projects/Core/Core/Runtime/ExceptionData.cpp     | 2 +-
 Projects/Core/Core/Runtime/ExceptionData.h       | 3 ++-
 Projects/Core/Core/VirtualMachine/Controller.cpp | 1 +
 Projects/Core/Core/VirtualMachine/Threads.cpp    | 7 +++++++
 Projects/Core/Core/VirtualMachine/Threads.h      | 1 +
 5 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Runtime/ExceptionData.cpp b/Projects/Core/Core/Runtime/ExceptionData.cpp
index 26f90c3..0df5517 100644
--- a/Projects/Core/Core/Runtime/ExceptionData.cpp
+++ b/Projects/Core/Core/Runtime/ExceptionData.cpp
@@ -28,7 +28,7 @@ ExceptionData::ExceptionData(Object* data, Common::Position position, std::strin
 
 Object* ExceptionData::getData() const
 {
-	return mData;
+	return mData.get();
 }
 
 const Common::Position& ExceptionData::getPosition() const
diff --git a/Projects/Core/Core/Runtime/ExceptionData.h b/Projects/Core/Core/Runtime/ExceptionData.h
index df5bef6..872b5c0 100644
--- a/Projects/Core/Core/Runtime/ExceptionData.h
+++ b/Projects/Core/Core/Runtime/ExceptionData.h
@@ -4,6 +4,7 @@
 
 
 // Library includes
+#include <memory>
 
 // Project includes
 #include <Core/Common/Position.h>
@@ -31,7 +32,7 @@ public:
 	const std::string& getStackTrace() const;
 
 private:
-	Object *mData;
+	std::shared_ptr<Object> mData;
 	Common::Position mPosition;
 	std::string mStackTrace;
 };
diff --git a/Projects/Core/Core/VirtualMachine/Controller.cpp b/Projects/Core/Core/VirtualMachine/Controller.cpp
index 94b5802..7d29acb 100644
--- a/Projects/Core/Core/VirtualMachine/Controller.cpp
+++ b/Projects/Core/Core/VirtualMachine/Controller.cpp
@@ -28,6 +28,7 @@ void Controller::deinit()
 	assert(mPhase > Phase::Startup);
 
 	// objects have to be released before any method or blueprint their destructors need is gone
+	mThreads->releaseExceptions();
 	releaseObjects(mGlobalScope);
 
 	delete mGlobalScope;
diff --git a/Projects/Core/Core/VirtualMachine/Threads.cpp b/Projects/Core/Core/VirtualMachine/Threads.cpp
index 2af072c..51603b3 100644
--- a/Projects/Core/Core/VirtualMachine/Threads.cpp
+++ b/Projects/Core/Core/VirtualMachine/Threads.cpp
@@ -209,6 +209,13 @@ void Threads::init()
 	// nothing to do here atm
 }
 
+void Threads::releaseExceptions()
+{
+	for ( auto& thread : mThreads ) {
+		thread.second->exception(Runtime::ExceptionData());
+	}
+}
+
 void Threads::print()
 {
 	for ( auto& thread : mThreads ) {
diff --git a/Projects/Core/Core/VirtualMachine/Threads.h b/Projects/Core/Core/VirtualMachine/Threads.h
index abf5826..b6e4ba7 100644
--- a/Projects/Core/Core/VirtualMachine/Threads.h
+++ b/Projects/Core/Core/VirtualMachine/Threads.h
@@ -100,6 +100,7 @@ public:
 public:
 	Thread* createThread();
 	void deleteThread(ThreadId id);
+	void releaseExceptions();
 	Thread* getThread(ThreadId id) const;
 
 	unsigned int getNumThreads() const;
-- 
2.43.0


From 6c6278ee53f775051903f18063e5a7a942f3106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:05 +0000
Subject: [PATCH 018/154] fix: evaluate arguments of a chained method call in
 the scope of the caller

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 44 +++++++++++++++++-----
 Projects/Core/Core/AST/TreeInterpreter.h   |  2 +
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index d42f287..307f2ef 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -286,16 +286,12 @@ void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::O
 	std::list<Runtime::Object> objectList;	// this is a hack to prevent that the provided object parameters run out of scope
 	ParameterList params;
 
-	for ( ExpressionList::const_iterator it = exp->mParams.begin(); it != exp->mParams.end(); ++it ) {
-		objectList.emplace_back();
-
-		Runtime::Object* param = &objectList.back();
-
-		evaluate((*it), param);
-
-		params.emplace_back(Parameter::CreateRuntime(param->QualifiedOuterface(), param->getValue(), param->getReference()));
-	}
+	evaluateMethodParameters(exp, objectList, params);
+	evaluateMethodExpression(exp, params, result);
+}
 
+void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, const ParameterList& params, Runtime::Object* result)
+{
 	IScope* scope = getScope();
 
 	MethodSymbol* methodSymbol = resolveMethod(scope, exp->mSymbolExpression, params, Visibility::Private);
@@ -343,6 +339,19 @@ void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, Runtime::O
 	}
 }
 
+void TreeInterpreter::evaluateMethodParameters(MethodExpression* exp, std::list<Runtime::Object>& objectList, ParameterList& params)
+{
+	for ( ExpressionList::const_iterator it = exp->mParams.begin(); it != exp->mParams.end(); ++it ) {
+		objectList.emplace_back();
+
+		Runtime::Object* param = &objectList.back();
+
+		evaluate((*it), param);
+
+		params.emplace_back(Parameter::CreateRuntime(param->QualifiedOuterface(), param->getValue(), param->getReference()));
+	}
+}
+
 void TreeInterpreter::evaluateNewExpression(NewExpression* exp, Runtime::Object* result)
 {
 	auto* method = dynamic_cast<MethodExpression*>(exp->mExpression);
@@ -381,11 +390,26 @@ void TreeInterpreter::evaluateScopeExpression(ScopeExpression* exp, Runtime::Obj
 	Runtime::Object left;
 	evaluate(exp->mLHS, &left);
 
+	auto* method = dynamic_cast<MethodExpression*>(exp->mRHS);
+
+	std::list<Runtime::Object> objectList;	// this is a hack to prevent that the provided object parameters run out of scope
+	ParameterList params;
+
+	if ( method ) {
+		// parameters belong to the scope of the caller
+		evaluateMethodParameters(method, objectList, params);
+	}
+
 	pushScope(&left);
 
 	Runtime::Object right;
 	try {
-		evaluate(exp->mRHS, &right);
+		if ( method ) {
+			evaluateMethodExpression(method, params, &right);
+		}
+		else {
+			evaluate(exp->mRHS, &right);
+		}
 	}
 	catch ( Runtime::ControlFlow::E& ) {
 		popScope();
diff --git a/Projects/Core/Core/AST/TreeInterpreter.h b/Projects/Core/Core/AST/TreeInterpreter.h
index 042fdd7..7a62255 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.h
+++ b/Projects/Core/Core/AST/TreeInterpreter.h
@@ -101,6 +101,8 @@ private:
 	void evaluateLiteral(LiteralExpression* exp, Runtime::Object* result);
 	void evaluateMember(Runtime::Object* object, MethodExpression* exp, Runtime::Object* result);
 	void evaluateMethodExpression(MethodExpression* exp, Runtime::Object* result);
+	void evaluateMethodExpression(MethodExpression* exp, const ParameterList& params, Runtime::Object* result);
+	void evaluateMethodParameters(MethodExpression* exp, std::list<Runtime::Object>& objectList, ParameterList& params);
 	void evaluateNewExpression(NewExpression* exp, Runtime::Object* result);
 	void evaluateScopeExpression(ScopeExpression* exp, Runtime::Object* result);
 	void evaluateStringEvalExpression(StringEvalExpression* exp, Runtime::Object* result, IScope* scope);
-- 
2.43.0


From c7b86ab39e45ce080d684dc35e660edcb832a43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:12 +0000
Subject: [PATCH 019/154] fix: keep the value of a pending return if a return
 in finally is abandoned

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 307f2ef..b8005b3 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1440,6 +1440,12 @@ void TreeInterpreter::visitTry(TryStatement* node)
 	// store current control flow and re-set it after finally block has been executed
 	const Runtime::ControlFlow::E tmpControlFlow = mControlFlow;
 
+	// the same goes for the value of a pending return statement
+	Runtime::Object tmpReturnValue;
+	if ( tmpControlFlow == Runtime::ControlFlow::Return ) {
+		tmpReturnValue = mFrame->returnValue();
+	}
+
 	// execute finally-block if present
 	if ( node->mFinallyBlock ) {
 		// reset current control flow to allow execution of finally-block
@@ -1451,6 +1457,10 @@ void TreeInterpreter::visitTry(TryStatement* node)
 	// reset control flow to previous state if not set differently by finally statement
 	if ( mControlFlow == Runtime::ControlFlow::Normal ) {
 		mControlFlow = tmpControlFlow;
+
+		if ( tmpControlFlow == Runtime::ControlFlow::Return ) {
+			mFrame->returnValue() = tmpReturnValue;
+		}
 	}
 
 	// our own exception has been handled, so a surrounding catch-block gets its exception back
-- 
2.43.0


From 3ee7d09b0c7e7c230692ecf1cd9d32c9f1c44228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:44 +0000
Subject: [PATCH 020/154] fix: give up the current reference if a null object
 is assigned

---
 Projects/Core/Core/Object.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index e0fe925..a5331fb 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -108,6 +108,10 @@ void Object::assign(const Object& other)
 		if ( mIsReference && other.mIsReference ) {
 			assignReference(other.mReference);
 		}
+		else if ( !other.mIsAtomicType && mReference.isValid() ) {
+			// a null object has been assigned, so we have to give up our current reference
+			assignReference(other.mReference);
+		}
 		else {
 			setValue(other.getValue());
 		}
-- 
2.43.0


From 04a9f16caa96197b21c029a6c6097d771b84ff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:20 +0000
Subject: [PATCH 021/154] fix: do not search the surrounding object for members
 of a null object

---
 Projects/Core/Core/AST/TreeInterpreter.cpp |  3 ++-
 Projects/Core/Core/Object.cpp              | 14 ++++++++++++--
 Projects/Core/Core/Object.h                |  1 +
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index b8005b3..1e07065 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -295,7 +295,8 @@ void TreeInterpreter::evaluateMethodExpression(MethodExpression* exp, const Para
 	IScope* scope = getScope();
 
 	MethodSymbol* methodSymbol = resolveMethod(scope, exp->mSymbolExpression, params, Visibility::Private);
-	if ( !methodSymbol ) {
+	auto* object = dynamic_cast<Runtime::Object*>(scope);
+	if ( !methodSymbol && !(object && object->isPlaceholder()) ) {
 		methodSymbol = resolveMethod(getEnclosingMethodScope(scope), exp->mSymbolExpression, params, Visibility::Private);
 	}
 	if ( !methodSymbol ) {
diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index a5331fb..5dbe100 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -343,6 +343,16 @@ bool Object::isInstanceOf(const std::string& type) const
 	return false;
 }
 
+bool Object::isPlaceholder() const
+{
+	if ( mThis != this ) {
+		return mThis->isPlaceholder();
+	}
+
+	// an object that has never been assigned has neither members nor methods of its own
+	return !mIsAtomicType && mSymbols.empty() && mMethods.empty();
+}
+
 bool Object::isValid() const
 {
 	if ( mIsAtomicType ) {
@@ -504,7 +514,7 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 	}
 
 	// (3) if we still haven't found something also look in other scopes
-	if ( !result && !onlyCurrentScope ) {
+	if ( !result && !onlyCurrentScope && !isPlaceholder() ) {
 		result = MethodScope::resolve(name, false, visibility);
 	}
 
@@ -532,7 +542,7 @@ Slang::MethodSymbol* Object::resolveMethod(const std::string& name, const Parame
 
 	// (3) if we still haven't found something also look in other scopes
 	if ( !result || !result->isFinalMethod() ) {
-		if ( !onlyCurrentScope ) {
+		if ( !onlyCurrentScope && !isPlaceholder() ) {
 			Slang::MethodSymbol *tmp = MethodScope::resolveMethod(name, params, false, visibility);
 
 			if ( tmp ) {
diff --git a/Projects/Core/Core/Object.h b/Projects/Core/Core/Object.h
index 037e09d..fb4240a 100644
--- a/Projects/Core/Core/Object.h
+++ b/Projects/Core/Core/Object.h
@@ -88,6 +88,7 @@ public:	// Value
 	bool isAbstract() const;
 	bool isAtomicType() const;
 	bool isEnumerationValue() const;
+	bool isPlaceholder() const;
 	virtual bool isValid() const;
 
 	virtual std::string ToString(unsigned int indent = 0) const;
-- 
2.43.0


From 269d6a9cf0ef4a14316f578473ceb2e588556a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:41 +0000
Subject: [PATCH 022/154] fix: resolve the target of an assignment after its
 value has been evaluated

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 1e07065..3fed9b4 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -105,12 +105,13 @@ void TreeInterpreter::evaluate(Node* exp, Runtime::Object* result)
 
 void TreeInterpreter::evaluateAssignmentExpression(AssignmentExpression* exp, Runtime::Object* result)
 {
-	Runtime::Object& lvalue = resolveLValue(getScope(), exp->mLHS, false, Visibility::Designtime);
-
 	Runtime::Object right;
 	// evaluate right expression
 	evaluate(exp->mRHS, &right);
 
+	// resolve lvalue afterwards, because evaluating the right expression may have released its owner
+	Runtime::Object& lvalue = resolveLValue(getScope(), exp->mLHS, false, Visibility::Designtime);
+
 	// execute assignment to lvalue (this may involve a type cast)
 	Runtime::operator_binary_assign(&lvalue, &right);
 
@@ -1068,12 +1069,13 @@ void TreeInterpreter::visitAssert(AssertStatement* assertStmt)
 
 void TreeInterpreter::visitAssignment(AssignmentStatement* node)
 {
-	Runtime::Object& lvalue = resolveLValue( getScope(), dynamic_cast<SymbolExpression*>( node->mLeftExpression ), false, Visibility::Designtime );
-
 	Runtime::Object right;
 	// evaluate right expression
 	tryControl(evaluate(node->mRightExpression, &right));
 
+	// resolve lvalue afterwards, because evaluating the right expression may have released its owner
+	Runtime::Object& lvalue = resolveLValue( getScope(), dynamic_cast<SymbolExpression*>( node->mLeftExpression ), false, Visibility::Designtime );
+
 	// execute assignment to lvalue (this may involve a type cast)
 	Runtime::operator_binary_assign(&lvalue, &right);
 }
-- 
2.43.0


From e42242e31aebc9a1eea32eedaebc263f8e16461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:35 +0000
Subject: [PATCH 023/154] fix: do not follow circular references when an object
 is printed

---
 Projects/Core/Core/Object.cpp | 11 +++++++++++
 Projects/Core/Core/Object.h   |  1 +
 2 files changed, 12 insertions(+)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 5dbe100..2fc7208 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -20,6 +20,9 @@ namespace Slang {
 namespace Runtime {
 
 
+static const unsigned int MAX_PRINT_DEPTH = 64;
+
+
 Object::Object()
 : MethodScope(ANONYMOUS_OBJECT, nullptr),
   ObjectSymbol(ANONYMOUS_OBJECT),
@@ -606,7 +609,13 @@ std::string Object::ToString(unsigned int indent) const
 	else if ( !isValid() ) {
 		result += " = null";
 	}
+	else if ( mIsPrinting || indent > MAX_PRINT_DEPTH ) {
+		// the object contains a reference to itself or is nested too deeply
+		result += " { ... }";
+	}
 	else {
+		mIsPrinting = true;
+
 		result += " {\n";
 
 /*
@@ -632,6 +641,8 @@ std::string Object::ToString(unsigned int indent) const
 		}
 
 		result += Utils::Tools::indent(indent) + "}";
+
+		mIsPrinting = false;
 	}
 
 	return result;
diff --git a/Projects/Core/Core/Object.h b/Projects/Core/Core/Object.h
index fb4240a..74d3bd8 100644
--- a/Projects/Core/Core/Object.h
+++ b/Projects/Core/Core/Object.h
@@ -134,6 +134,7 @@ protected:
 	std::string mFilename;
 	Inheritance mInheritance;
 	bool mIsAtomicType;
+	mutable bool mIsPrinting = false;
 	bool mIsReference;
 	std::string mQualifiedOuterface;
 	std::string mQualifiedTypename;
-- 
2.43.0


From d072807a69e9637e8fd56f1751d109b478994f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:39 +0000
Subject: [PATCH 024/154] fix: execute the destructor of an object only once if
 it uses the object itself

---
 Projects/Core/Core/VirtualMachine/Memory.cpp | 14 +++++++++++++-
 Projects/Core/Core/VirtualMachine/Memory.h   |  2 ++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index ad5a5d4..9aefce2 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -82,7 +82,19 @@ void Memory::deleteObject(const Runtime::Reference& ref)
 
 	// delete it if it's valid ...
 	if ( it->second.mObject ) {
-		it->second.mObject->Destructor();
+		if ( !it->second.mIsDestroyed ) {
+			// hold a reference while the destructor is executed, because it may use the object itself
+			it->second.mCount++;
+			it->second.mIsDestroyed = true;
+
+			it->second.mObject->Destructor();
+
+			it->second.mCount--;
+			if ( it->second.mCount > 0 ) {
+				// the destructor has stored a reference to our object
+				return;
+			}
+		}
 
 		delete it->second.mObject;
 	}
diff --git a/Projects/Core/Core/VirtualMachine/Memory.h b/Projects/Core/Core/VirtualMachine/Memory.h
index 79e9b79..54e39c7 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.h
+++ b/Projects/Core/Core/VirtualMachine/Memory.h
@@ -46,11 +46,13 @@ private:
 	public:
 		explicit RefCount(Runtime::Object* object = nullptr)
 		: mCount(0),
+		  mIsDestroyed(false),
 		  mObject(object)
 		{ }
 
 	public:
 		unsigned int mCount;
+		bool mIsDestroyed;
 		Runtime::Object* mObject;
 	};
 
-- 
2.43.0


From 9e428e49c558a2a55a725ad884f8bf7b80fcc4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:26 +0000
Subject: [PATCH 025/154] fix: keep global variables accessible while objects
 are released at exit

---
 Projects/Core/Core/Object.h                   |  2 ++
 .../Core/Core/VirtualMachine/Controller.cpp   | 21 +++++++++++++++++++
 .../Core/Core/VirtualMachine/Controller.h     |  1 +
 3 files changed, 24 insertions(+)

diff --git a/Projects/Core/Core/Object.h b/Projects/Core/Core/Object.h
index 74d3bd8..bc92e8e 100644
--- a/Projects/Core/Core/Object.h
+++ b/Projects/Core/Core/Object.h
@@ -85,6 +85,8 @@ public:	// Value
 
 	Object* getThis() const { return mThis; }
 
+	void releaseReference() { assignReference(Reference()); }
+
 	bool isAbstract() const;
 	bool isAtomicType() const;
 	bool isEnumerationValue() const;
diff --git a/Projects/Core/Core/VirtualMachine/Controller.cpp b/Projects/Core/Core/VirtualMachine/Controller.cpp
index 7d29acb..9dfc732 100644
--- a/Projects/Core/Core/VirtualMachine/Controller.cpp
+++ b/Projects/Core/Core/VirtualMachine/Controller.cpp
@@ -7,6 +7,7 @@
 
 // Project includes
 #include <Core/Common/Namespace.h>
+#include <Core/Object.h>
 
 // Namespace declarations
 
@@ -29,6 +30,7 @@ void Controller::deinit()
 
 	// objects have to be released before any method or blueprint their destructors need is gone
 	mThreads->releaseExceptions();
+	releaseReferences(mGlobalScope);
 	releaseObjects(mGlobalScope);
 
 	delete mGlobalScope;
@@ -105,6 +107,25 @@ void Controller::releaseObjects(MethodScope* scope) const
 	}
 }
 
+void Controller::releaseReferences(MethodScope* scope) const
+{
+	// all variables stay accessible, because the destructors of the released objects may use them
+	const MethodScope::Symbols symbols(scope->beginSymbols(), scope->endSymbols());
+
+	for ( const auto& symbol : symbols ) {
+		switch ( symbol.second->getSymbolType() ) {
+			case Symbol::IType::NamespaceSymbol:
+				releaseReferences(dynamic_cast<Common::Namespace*>(symbol.second));
+				break;
+			case Symbol::IType::ObjectSymbol:
+				dynamic_cast<Runtime::Object*>(symbol.second)->releaseReference();
+				break;
+			default:
+				break;
+		}
+	}
+}
+
 Repository* Controller::repository() const
 {
 	return mRepository;
diff --git a/Projects/Core/Core/VirtualMachine/Controller.h b/Projects/Core/Core/VirtualMachine/Controller.h
index e1b5dd1..97560ef 100644
--- a/Projects/Core/Core/VirtualMachine/Controller.h
+++ b/Projects/Core/Core/VirtualMachine/Controller.h
@@ -69,6 +69,7 @@ private:
 	Controller();
 
 	void releaseObjects(MethodScope* scope) const;
+	void releaseReferences(MethodScope* scope) const;
 
 private:
 	Common::Namespace* mGlobalScope;
-- 
2.43.0


From 42f95c56ffa18deb52a0aa990624a4a3284ce5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:56 +0000
Subject: [PATCH 026/154] fix: release long chains of objects without recursion

---
 Projects/Core/Core/VirtualMachine/Memory.cpp | 28 ++++++++++++++++++--
 Projects/Core/Core/VirtualMachine/Memory.h   |  3 +++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index 9aefce2..fd23cc4 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -22,7 +22,8 @@ namespace Slang {
 
 
 Memory::Memory()
-: mNextAddress(1)
+: mIsCollecting(false),
+  mNextAddress(1)
 {
 }
 
@@ -87,8 +88,13 @@ void Memory::deleteObject(const Runtime::Reference& ref)
 			it->second.mCount++;
 			it->second.mIsDestroyed = true;
 
+			bool isCollecting = mIsCollecting;
+			mIsCollecting = false;
+
 			it->second.mObject->Destructor();
 
+			mIsCollecting = isCollecting;
+
 			it->second.mCount--;
 			if ( it->second.mCount > 0 ) {
 				// the destructor has stored a reference to our object
@@ -96,11 +102,29 @@ void Memory::deleteObject(const Runtime::Reference& ref)
 			}
 		}
 
-		delete it->second.mObject;
+		mGarbage.push_back(it->second.mObject);
 	}
 
 	// ... and remove the address from memory
 	mMemory.erase(it);
+
+	if ( mIsCollecting ) {
+		// somebody further up already takes care of it
+		return;
+	}
+
+	// deleting an object releases its members, so we do this one by one to not
+	// run out of stack if our objects form a long chain
+	mIsCollecting = true;
+
+	while ( !mGarbage.empty() ) {
+		Runtime::Object* object = mGarbage.back();
+		mGarbage.pop_back();
+
+		delete object;
+	}
+
+	mIsCollecting = false;
 }
 
 Runtime::Object* Memory::get(const Runtime::Reference& ref) const
diff --git a/Projects/Core/Core/VirtualMachine/Memory.h b/Projects/Core/Core/VirtualMachine/Memory.h
index 54e39c7..ac18384 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.h
+++ b/Projects/Core/Core/VirtualMachine/Memory.h
@@ -5,6 +5,7 @@
 
 // Library includes
 #include <map>
+#include <vector>
 
 // Project includes
 #include <Core/Runtime/Reference.h>
@@ -67,6 +68,8 @@ private:
 	const Runtime::Reference& reserveAddress();
 
 private:
+	std::vector<Runtime::Object*> mGarbage;
+	bool mIsCollecting;
 	MemoryMap mMemory;
 	Runtime::MemoryId mNextAddress;
 };
-- 
2.43.0


From aeb2eb89733f3319f344c7154b13d7f57afbd541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:56 +0000
Subject: [PATCH 027/154] fix: keep an object alive while one of its methods is
 executed

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 3fed9b4..e3081c5 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -644,6 +644,12 @@ Runtime::ControlFlow::E TreeInterpreter::execute(Runtime::Object* self, Common::
 		throw Common::Exceptions::AbstractException("cannot execute abstract method '" + method->getFullScopeName() + "'");
 	}
 
+	// keep the object alive while one of its methods is executed
+	Runtime::Object guard;
+	if ( self && self->getReference().isValid() ) {
+		guard = *self;
+	}
+
 	Common::Method scope(*method, true);
 
 	// assign this pointer and add to scope
-- 
2.43.0


From 9e4dd7df8caf1aed97e168af0d0fb8dfffc3b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:49 +0000
Subject: [PATCH 028/154] fix: keep links and size of a list consistent

Removing the last item walked one item too far and left the old item
linked, erasing left stale links to removed items, an erase index equal
to the size was accepted and a copy shared its items with the original.
---
 Projects/Library/System/Collections/List.os | 85 ++++++++++-----------
 1 file changed, 42 insertions(+), 43 deletions(-)

diff --git a/Projects/Library/System/Collections/List.os b/Projects/Library/System/Collections/List.os
index d093366..841383f 100644
--- a/Projects/Library/System/Collections/List.os
+++ b/Projects/Library/System/Collections/List.os
@@ -19,10 +19,25 @@ public object List<T> implements ICollection {
 	public List<T> Copy() const {
 		var result = new List<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
 		result.mSize = mSize;
 
+		CollectionItem<T> item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var duplicate = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {			// special handling for 1st item
+				result.mFirst = duplicate;
+			}
+			else {						// generic handling
+				result.mLast.next = duplicate;
+			}
+
+			duplicate.previous = result.mLast;
+			result.mLast = duplicate;
+
+			item = item.next;
+		}
+
 		return result;
 	}
 
@@ -41,7 +56,7 @@ public object List<T> implements ICollection {
 
 	public void clear() modify {
 		for ( int i = 0; i < mSize; i++ ) {
-			delete mFirst.value;
+			mFirst.previous = CollectionItem<T> null;		// break up circular references
 			mFirst = mFirst.next;
 		}
 
@@ -59,43 +74,30 @@ public object List<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "erase index(" + index + ") out of bounds" );
 		}
 
-		if ( index == 0 ) {						// special handling for 1st element
-			mFirst = mFirst.next;
+		CollectionItem<T> item = mFirst;
+		for ( int i = 0; i < index; i++ ) {
+			item = item.next;
 		}
-		else if ( index == mSize - 1 ) {		// special handling for last element
-			var prev = mFirst;
 
-			while( prev.next.next )
-				prev = prev.next;
-
-			prev.next = CollectionItem<T> null;
-			mLast = prev;
+		if ( index == 0 ) {						// special handling for 1st element
+			mFirst = item.next;
+		}
+		else {
+			item.previous.next = item.next;
 		}
-		else {									// default handling for erasing
-			var prev = mFirst;
-
-			for ( int i = 0; i < index - 1; i++ ) {
-				prev = prev.next;
-			}
 
-			if ( index == mSize - 1 ) {
-				mLast = prev.next;
-			}
-			else if ( prev.next ) {
-				prev.next = prev.next.next;
-			}
+		if ( index == mSize - 1 ) {				// special handling for last element
+			mLast = item.previous;
+		}
+		else {
+			item.next.previous = item.previous;
 		}
 
 		mSize--;
-
-		if ( mSize == 0 ) {
-			mFirst = CollectionItem<T> null;
-			mLast = mFirst;
-		}
 	}
 
 	public T first() const throws {
@@ -153,18 +155,12 @@ public object List<T> implements ICollection {
 			throw new OutOfBoundsException( "empty collection" );
 		}
 
-		if ( mSize == 1 ) {			// special handling for 1st item
-			delete mFirst;
-			delete mLast;
+		mLast = mLast.previous;
+		if ( mLast ) {
+			mLast.next = CollectionItem<T> null;
 		}
-		else {					// generic handling
-			CollectionItem<T> item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
-				item = item.next;
-			}
-
-			mLast = item;
-			delete item.next;
+		else {
+			mFirst = CollectionItem<T> null;
 		}
 
 		mSize--;
@@ -176,8 +172,11 @@ public object List<T> implements ICollection {
 		}
 
 		mFirst = mFirst.next;
-		if ( !mFirst ) {
-			delete mLast;
+		if ( mFirst ) {
+			mFirst.previous = CollectionItem<T> null;
+		}
+		else {
+			mLast = CollectionItem<T> null;
 		}
 
 		mSize--;
-- 
2.43.0


From dbbc919327e09b54d94be7a7cf3b2626d8ebbac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:49 +0000
Subject: [PATCH 029/154] fix: keep links and size of a vector consistent

Items were not linked backwards, removing the last item walked one item
too far, an erase index equal to the size was accepted and a copy shared
its items with the original.
---
 Projects/Library/System/Collections/Vector.os | 125 +++++++++---------
 1 file changed, 62 insertions(+), 63 deletions(-)

diff --git a/Projects/Library/System/Collections/Vector.os b/Projects/Library/System/Collections/Vector.os
index 88a10f4..0d3ab76 100644
--- a/Projects/Library/System/Collections/Vector.os
+++ b/Projects/Library/System/Collections/Vector.os
@@ -19,10 +19,25 @@ public object Vector<T> implements ICollection {
 	public Vector<T> Copy() const {
 		var result = new Vector<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
 		result.mSize = mSize;
 
+		CollectionItem<T> item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var duplicate = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {			// special handling for 1st item
+				result.mFirst = duplicate;
+			}
+			else {						// generic handling
+				result.mLast.next = duplicate;
+			}
+
+			duplicate.previous = result.mLast;
+			result.mLast = duplicate;
+
+			item = item.next;
+		}
+
 		return result;
 	}
 
@@ -40,8 +55,8 @@ public object Vector<T> implements ICollection {
 	}
 
 	public void clear() modify {
-		for ( int idx = 0; idx < mSize; idx++ ) {
-			delete mFirst.value;
+		for ( int i = 0; i < mSize; i++ ) {
+			mFirst.previous = CollectionItem<T> null;		// break up circular references
 			mFirst = mFirst.next;
 		}
 
@@ -59,43 +74,30 @@ public object Vector<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "erase index(" + index + ") beyond end of list" );
 		}
 
-		if ( index == 0 ) {						// special handling for 1st element
-			mFirst = mFirst.next;
+		CollectionItem<T> item = mFirst;
+		for ( int i = 0; i < index; i++ ) {
+			item = item.next;
 		}
-		else if ( index == mSize - 1 ) {		// special handling for last element
-			var prev = mFirst;
-
-			while( prev.next.next )
-				prev = prev.next;
 
-			prev.next = CollectionItem<T> null;
-			mLast = prev;
+		if ( index == 0 ) {						// special handling for 1st element
+			mFirst = item.next;
+		}
+		else {
+			item.previous.next = item.next;
 		}
-		else {									// default handling for erasing
-			var prev = mFirst;
-
-			for ( int i = 0; i < index - 1; i++ ) {
-				prev = prev.next;
-			}
 
-			if ( index == mSize - 1 ) {
-				mLast = prev.next;
-			}
-			else if ( prev.next ) {
-				prev.next = prev.next.next;
-			}
+		if ( index == mSize - 1 ) {				// special handling for last element
+			mLast = item.previous;
+		}
+		else {
+			item.next.previous = item.previous;
 		}
 
 		mSize--;
-
-		if ( mSize == 0 ) {
-			mFirst = CollectionItem<T> null;
-			mLast = mFirst;
-		}
 	}
 
 	public T first() const throws {
@@ -145,31 +147,27 @@ public object Vector<T> implements ICollection {
 			throw new OutOfBoundsException( "insert index(" + index + ") beyond end of list" );
 		}
 
-		var item = new CollectionItem<T>( value );
-
-		if ( !mFirst ) {
-			mFirst = item;
-			mLast = item;
-		}
-		else if ( index == 0 ) {		// special handling for 1st element
-			item.next = mFirst;
-			mFirst = item;
+		if ( index == 0 ) {			// special handling for 1st element
+			push_front( value );
 		}
 		else if ( index == mSize ) {		// special handling for last element
-			mLast.next = item;
-			mLast = item;
+			push_back( value );
 		}
 		else {					// default handling for insertions
+			var item = new CollectionItem<T>( value );
+
 			var tmp = mFirst;
 			for ( int idx = 0; idx < index - 1; idx++ ) {
 				tmp = tmp.next;
 			}
 
 			item.next = tmp.next;
+			item.previous = tmp;
+			tmp.next.previous = item;
 			tmp.next = item;
-		}
 
-		mSize++;
+			mSize++;
+		}
 	}
 
 	public T last() const throws {
@@ -185,18 +183,12 @@ public object Vector<T> implements ICollection {
 			throw new OutOfBoundsException( "empty collection" );
 		}
 
-		if ( mSize == 1 ) {                     // special handling for 1st item
-			delete mFirst;
-			delete mLast;
+		mLast = mLast.previous;
+		if ( mLast ) {
+			mLast.next = CollectionItem<T> null;
 		}
-		else {                                  // generic handling
-			var item = mFirst;
-			for ( int idx = 0; idx < mSize - 1; idx++ ) {
-				item = item.next;
-			}
-
-			mLast = item;
-			delete item.next;
+		else {
+			mFirst = CollectionItem<T> null;
 		}
 
 		mSize--;
@@ -208,8 +200,11 @@ public object Vector<T> implements ICollection {
 		}
 
 		mFirst = mFirst.next;
-		if ( !mFirst ) {
-			delete mLast;
+		if ( mFirst ) {
+			mFirst.previous = CollectionItem<T> null;
+		}
+		else {
+			mLast = CollectionItem<T> null;
 		}
 
 		mSize--;
@@ -218,13 +213,14 @@ public object Vector<T> implements ICollection {
 	public void push_back( T value ) modify {
 		var item = new CollectionItem<T>( value );
 
-		if ( mSize == 0 ) {                     // special handling for 1st item
+		if ( mSize == 0 ) {			// special handling for 1st item
 			mFirst = item;
 		}
-		else {                                  // generic handling
+		else {						// generic handling
 			mLast.next = item;
 		}
 
+		item.previous = mLast;
 		mLast = item;
 
 		mSize++;
@@ -233,12 +229,15 @@ public object Vector<T> implements ICollection {
 	public void push_front( T value ) modify {
 		var item = new CollectionItem<T>( value );
 
-		item.next = mFirst;
-		mFirst = item;
-
-		if ( mSize == 0 ) {
+		if ( mSize == 0 ) {			// special handling for 1st item
 			mLast = item;
 		}
+		else {						// generic handling
+			item.next = mFirst;
+			mFirst.previous = item;
+		}
+
+		mFirst = item;
 
 		mSize++;
 	}
-- 
2.43.0


From 535d52d62207d3caf8f25d07f5ac9d99b501060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:49 +0000
Subject: [PATCH 030/154] fix: keep links and size of a double linked list
 consistent

Items were not linked backwards, the last item was not updated when
items were added to the front or removed, an erase index equal to the
size was accepted and a copy shared its items with the original.
---
 .../System/Collections/DoubleLinkedList.os    | 96 ++++++++++---------
 1 file changed, 53 insertions(+), 43 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedList.os b/Projects/Library/System/Collections/DoubleLinkedList.os
index 8b94aa0..567d1ff 100644
--- a/Projects/Library/System/Collections/DoubleLinkedList.os
+++ b/Projects/Library/System/Collections/DoubleLinkedList.os
@@ -22,10 +22,25 @@ public object DoubleLinkedList<T> implements ICollection {
 	public DoubleLinkedList<T> Copy() const {
 		var result = new DoubleLinkedList<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
 		result.mSize = mSize;
 
+		CollectionItem<T> item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var duplicate = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {			// special handling for 1st item
+				result.mFirst = duplicate;
+			}
+			else {						// generic handling
+				result.mLast.next = duplicate;
+			}
+
+			duplicate.previous = result.mLast;
+			result.mLast = duplicate;
+
+			item = item.next;
+		}
+
 		return result;
 	}
 
@@ -44,7 +59,7 @@ public object DoubleLinkedList<T> implements ICollection {
 
 	public void clear() modify {
 		for ( int i = 0; i < mSize; i++ ) {
-			delete mFirst.value;
+			mFirst.previous = CollectionItem<T> null;		// break up circular references
 			mFirst = mFirst.next;
 		}
 
@@ -62,43 +77,30 @@ public object DoubleLinkedList<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
-		if ( index == 0 ) {						// special handling for 1st element
-			mFirst = mFirst.next;
+		CollectionItem<T> item = mFirst;
+		for ( int i = 0; i < index; i++ ) {
+			item = item.next;
 		}
-		else if ( index == mSize - 1 ) {		// special handling for last element
-			var prev = mFirst;
-
-			while( prev.next.next )
-				prev = prev.next;
 
-			prev.next = CollectionItem<T> null;
-			mLast = prev;
+		if ( index == 0 ) {						// special handling for 1st element
+			mFirst = item.next;
+		}
+		else {
+			item.previous.next = item.next;
 		}
-		else {									// default handling for erasing
-			var prev = mFirst;
-
-			for ( int i = 0; i < index - 1; i++ ) {
-				prev = prev.next;
-			}
 
-			if ( index == mSize - 1 ) {
-				mLast = prev.next;
-			}
-			else if ( prev.next ) {
-				prev.next = prev.next.next;
-			}
+		if ( index == mSize - 1 ) {				// special handling for last element
+			mLast = item.previous;
+		}
+		else {
+			item.next.previous = item.previous;
 		}
 
 		mSize--;
-
-		if ( mSize == 0 ) {
-			mFirst = CollectionItem<T> null;
-			mLast = mFirst;
-		}
 	}
 
 	public T first() const throws {
@@ -156,16 +158,12 @@ public object DoubleLinkedList<T> implements ICollection {
 			throw new OutOfBoundsException( "empty collection" );
 		}
 
-		if ( mSize == 1 ) {
-			delete mFirst;
+		mLast = mLast.previous;
+		if ( mLast ) {
+			mLast.next = CollectionItem<T> null;
 		}
 		else {
-			var item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
-				item = item.next;
-			}
-
-			delete item.next;
+			mFirst = CollectionItem<T> null;
 		}
 
 		mSize--;
@@ -177,6 +175,12 @@ public object DoubleLinkedList<T> implements ICollection {
 		}
 
 		mFirst = mFirst.next;
+		if ( mFirst ) {
+			mFirst.previous = CollectionItem<T> null;
+		}
+		else {
+			mLast = CollectionItem<T> null;
+		}
 
 		mSize--;
 	}
@@ -184,14 +188,14 @@ public object DoubleLinkedList<T> implements ICollection {
 	public void push_back( T value ) modify {
 		var item = new CollectionItem<T>( value );
 
-		if ( mSize == 0 ) {
+		if ( mSize == 0 ) {			// special handling for 1st item
 			mFirst = item;
 		}
-		else {
+		else {						// generic handling
 			mLast.next = item;
 		}
 
-		//item.previous = mLast;	// this leaves a mem leak... ;-(
+		item.previous = mLast;
 		mLast = item;
 
 		mSize++;
@@ -199,9 +203,15 @@ public object DoubleLinkedList<T> implements ICollection {
 
 	public void push_front( T value ) modify {
 		var item = new CollectionItem<T>( value );
-		item.next = mFirst;
 
-		//mFirst.previous = item;	// this leaves a mem leak... ;-(
+		if ( mSize == 0 ) {			// special handling for 1st item
+			mLast = item;
+		}
+		else {						// generic handling
+			item.next = mFirst;
+			mFirst.previous = item;
+		}
+
 		mFirst = item;
 
 		mSize++;
-- 
2.43.0


From d2766eb427a27af808442144f3ee6a3d3f7fb2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:49 +0000
Subject: [PATCH 031/154] fix: keep links and size of a stack consistent

A pop left the old item linked, clear() never ended, an erase index
equal to the size was accepted and a copy shared its items with the
original.
---
 Projects/Library/System/Collections/Stack.os | 79 ++++++++++----------
 1 file changed, 38 insertions(+), 41 deletions(-)

diff --git a/Projects/Library/System/Collections/Stack.os b/Projects/Library/System/Collections/Stack.os
index cd84331..e641c76 100644
--- a/Projects/Library/System/Collections/Stack.os
+++ b/Projects/Library/System/Collections/Stack.os
@@ -19,10 +19,25 @@ public object Stack<T> implements ICollection {
 	public Stack<T> Copy() const {
 		var result = new Stack<T>();
 
-		result.mFirst = mFirst;
-		result.mLast = mLast;
 		result.mSize = mSize;
 
+		CollectionItem<T> item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var duplicate = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {			// special handling for 1st item
+				result.mFirst = duplicate;
+			}
+			else {						// generic handling
+				result.mLast.next = duplicate;
+			}
+
+			duplicate.previous = result.mLast;
+			result.mLast = duplicate;
+
+			item = item.next;
+		}
+
 		return result;
 	}
 
@@ -40,8 +55,8 @@ public object Stack<T> implements ICollection {
 	}
 
 	public void clear() modify {
-		for ( int i = 0; i < mSize; i = i++ ) {
-			delete mFirst.value;
+		for ( int i = 0; i < mSize; i++ ) {
+			mFirst.previous = CollectionItem<T> null;		// break up circular references
 			mFirst = mFirst.next;
 		}
 
@@ -59,43 +74,30 @@ public object Stack<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
-		if ( index == 0 ) {						// special handling for 1st element
-			mFirst = mFirst.next;
+		CollectionItem<T> item = mFirst;
+		for ( int i = 0; i < index; i++ ) {
+			item = item.next;
 		}
-		else if ( index == mSize - 1 ) {		// special handling for last element
-			var prev = mFirst;
-
-			while( prev.next.next )
-				prev = prev.next;
 
-			prev.next = CollectionItem<T> null;
-			mLast = prev;
+		if ( index == 0 ) {						// special handling for 1st element
+			mFirst = item.next;
+		}
+		else {
+			item.previous.next = item.next;
 		}
-		else {									// default handling for erasing
-			var prev = mFirst;
-
-			for ( int i = 0; i < index - 1; i++ ) {
-				prev = prev.next;
-			}
 
-			if ( index == mSize - 1 ) {
-				mLast = prev.next;
-			}
-			else if ( prev.next ) {
-				prev.next = prev.next.next;
-			}
+		if ( index == mSize - 1 ) {				// special handling for last element
+			mLast = item.previous;
+		}
+		else {
+			item.next.previous = item.previous;
 		}
 
 		mSize--;
-
-		if ( mSize == 0 ) {
-			mFirst = CollectionItem<T> null;
-			mLast = mFirst;
-		}
 	}
 
 ///* activate for double linked iterator usage
@@ -147,18 +149,12 @@ public object Stack<T> implements ICollection {
 
 		var last = mLast.value;
 
-		if ( mSize == 1 ) {
-			delete mFirst;
+		mLast = mLast.previous;
+		if ( mLast ) {
+			mLast.next = CollectionItem<T> null;
 		}
 		else {
-			var item = mFirst;
-			for ( int i = 0; i < mSize - 1; i++ ) {
-				item = item.next;
-			}
-
-			delete item.next;
-
-			mLast = item;
+			mFirst = CollectionItem<T> null;
 		}
 
 		mSize--;
@@ -176,6 +172,7 @@ public object Stack<T> implements ICollection {
 			mLast.next = item;
 		}
 
+		item.previous = mLast;
 		mLast = item;
 
 		mSize++;
-- 
2.43.0


From 217f9f30cf1ae01ac9e732d7017a44e96bc3179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:49 +0000
Subject: [PATCH 032/154] fix: keep links of a set consistent and reject
 duplicates

The last item was never updated, duplicates were accepted even if they
are not allowed and a copy shared its items with the original.
---
 Projects/Library/System/Collections/Set.os | 79 ++++++++++++----------
 1 file changed, 43 insertions(+), 36 deletions(-)

diff --git a/Projects/Library/System/Collections/Set.os b/Projects/Library/System/Collections/Set.os
index d052a14..fa4fab9 100644
--- a/Projects/Library/System/Collections/Set.os
+++ b/Projects/Library/System/Collections/Set.os
@@ -20,10 +20,25 @@ public object Set<T> implements ICollection {
 		var result = new Set<T>();
 
 		result.mAllowDuplicates = mAllowDuplicates;
-		result.mFirst = mFirst;
-		result.mLast = mLast;
 		result.mSize = mSize;
 
+		CollectionItem<T> item = mFirst;
+		for ( int i = 0; i < mSize; i++ ) {
+			var duplicate = new CollectionItem<T>( item.value );
+
+			if ( i == 0 ) {			// special handling for 1st item
+				result.mFirst = duplicate;
+			}
+			else {						// generic handling
+				result.mLast.next = duplicate;
+			}
+
+			duplicate.previous = result.mLast;
+			result.mLast = duplicate;
+
+			item = item.next;
+		}
+
 		return result;
 	}
 
@@ -42,7 +57,7 @@ public object Set<T> implements ICollection {
 
 	public void clear() modify {
 		for ( int i = 0; i < mSize; i++ ) {
-			delete mFirst.value;
+			mFirst.previous = CollectionItem<T> null;		// break up circular references
 			mFirst = mFirst.next;
 		}
 
@@ -60,43 +75,30 @@ public object Set<T> implements ICollection {
 	}
 
 	public void erase( int index ) modify throws {
-		if ( index < 0 || index > mSize ) {
+		if ( index < 0 || index >= mSize ) {
 			throw new OutOfBoundsException( "index(" + index + ") out of bounds" );
 		}
 
-		if ( index == 0 ) {						// special handling for 1st element
-			mFirst = mFirst.next;
+		CollectionItem<T> item = mFirst;
+		for ( int i = 0; i < index; i++ ) {
+			item = item.next;
 		}
-		else if ( index == mSize - 1 ) {		// special handling for last element
-			var prev = mFirst;
-
-			while( prev.next.next )
-				prev = prev.next;
 
-			prev.next = CollectionItem<T> null;
-			mLast = prev;
+		if ( index == 0 ) {						// special handling for 1st element
+			mFirst = item.next;
+		}
+		else {
+			item.previous.next = item.next;
 		}
-		else {									// default handling for erasing
-			var prev = mFirst;
-
-			for ( int i = 0; i < index - 1; i++ ) {
-				prev = prev.next;
-			}
 
-			if ( index == mSize - 1 ) {
-				mLast = prev.next;
-			}
-			else if ( prev.next ) {
-				prev.next = prev.next.next;
-			}
+		if ( index == mSize - 1 ) {				// special handling for last element
+			mLast = item.previous;
+		}
+		else {
+			item.next.previous = item.previous;
 		}
 
 		mSize--;
-
-		if ( mSize == 0 ) {
-			mFirst = CollectionItem<T> null;
-			mLast = mFirst;
-		}
 	}
 
 	public T first() const throws {
@@ -143,6 +145,10 @@ public object Set<T> implements ICollection {
 	}
 
 	public void insert( T value ) modify throws {
+		if ( !mAllowDuplicates && contains( value ) ) {
+			throw new Exception( "duplicate item" );
+		}
+
 		var item = new CollectionItem<T>( value );
 
 		if ( !mFirst ) {				// special handling for 1st element
@@ -151,6 +157,7 @@ public object Set<T> implements ICollection {
 		}
 		else if ( (T value) < (T mFirst.value) ) {		// special handling for inserting in 1st position
 			item.next = mFirst;
+			mFirst.previous = item;
 			mFirst = item;
 		}
 		else {						// default handling for insertions
@@ -166,15 +173,15 @@ public object Set<T> implements ICollection {
 				tmp = tmp.next;
 			}
 
-			if ( !mAllowDuplicates ) {
-				if ( previous.next ) {
-					if ( item == previous.next ) {
-						throw new Exception( "duplicate item" );
-					}
-				}
+			if ( previous.next ) {
+				previous.next.previous = item;
+			}
+			else {
+				mLast = item;
 			}
 
 			item.next = previous.next;
+			item.previous = previous;
 			previous.next = item;
 		}
 
-- 
2.43.0


From 71d2b0b2fa2ad9753cc8d87e3cb62c1cef2f3202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:49 +0000
Subject: [PATCH 033/154] fix: do not share items between copies of a queue

---
 Projects/Library/System/Collections/Queue.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/System/Collections/Queue.os b/Projects/Library/System/Collections/Queue.os
index 13c4dcd..4ca86ba 100644
--- a/Projects/Library/System/Collections/Queue.os
+++ b/Projects/Library/System/Collections/Queue.os
@@ -19,7 +19,7 @@ public object Queue<T> implements ICollection {
 	public Queue<T> Copy() const {
 		var result = new Queue<T>();
 
-		result.mItems = mItems;
+		result.mItems = mItems.Copy();
 
 		return result;
 	}
-- 
2.43.0


From 21d8efeb17050f83647e358bb1ca304fcea3464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:49 +0000
Subject: [PATCH 034/154] fix: overwrite values of existing keys in a map

Inserting an existing key added a second pair, copies shared their
items, indexOf() always returned 0 and first() and last() tried to cast
a pair to a value.
---
 Projects/Library/System/Collections/Map.os | 25 +++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/Projects/Library/System/Collections/Map.os b/Projects/Library/System/Collections/Map.os
index 881e2e2..de381b1 100644
--- a/Projects/Library/System/Collections/Map.os
+++ b/Projects/Library/System/Collections/Map.os
@@ -20,7 +20,11 @@ public object Map<K, V> implements ICollection {
 	public Map<K, V> Copy() const {
 		var result = new Map<K, V>();
 
-		result.mItems = mItems;
+		foreach ( Object p : mItems ) {
+			var pair = Pair<K, V> p;
+
+			result.mItems.push_back( cast<Object>( new Pair<K, V>( pair.first, pair.second ) ) );
+		}
 
 		return result;
 	}
@@ -44,7 +48,9 @@ public object Map<K, V> implements ICollection {
 	}
 
 	public V first() const throws {
-		return V mItems.first();
+		var pair = Pair<K, V> mItems.first();
+
+		return pair.second;
 	}
 
 	public V get( K key const ) const throws {
@@ -84,17 +90,30 @@ public object Map<K, V> implements ICollection {
 			if ( ( Pair<K, V> p ) == key ) {
 				return count;
 			}
+
+			count++;
 		}
 
 		return -1;
 	}
 
 	public void insert( K k, V v ) modify {
+		foreach ( Object p : mItems ) {
+			if ( ( Pair<K, V> p ) == k ) {
+				var pair = Pair<K, V> p;
+				pair.second = v;
+
+				return;
+			}
+		}
+
 		mItems.push_back( cast<Object>( new Pair<K, V>( k, v ) ) );
 	}
 
 	public V last() const throws {
-		return V mItems.last();
+		var pair = Pair<K, V> mItems.last();
+
+		return pair.second;
 	}
 
 	public void put( K key, V value ) modify throws {
-- 
2.43.0


From 5dad14f7d29a03c9bd4f978d10223c8f427bc46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:49 +0000
Subject: [PATCH 035/154] fix: start reverse iteration at the last item

next() of a reverse iterator accessed the current item before there was
one, and peek() failed before the first call of next().
---
 .../Collections/DoubleLinkedIterator.os       | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/Projects/Library/System/Collections/DoubleLinkedIterator.os b/Projects/Library/System/Collections/DoubleLinkedIterator.os
index ab54597..3fa71bd 100644
--- a/Projects/Library/System/Collections/DoubleLinkedIterator.os
+++ b/Projects/Library/System/Collections/DoubleLinkedIterator.os
@@ -36,7 +36,7 @@ public object Iterator<T> {
 			return false;
 		}
 		if ( !mCurrentItem ) {
-			return bool mFirstItem;
+			return false;
 		}
 
 		return bool mCurrentItem.previous;
@@ -65,6 +65,10 @@ public object Iterator<T> {
 		var tmpItem = mCurrentItem;
 
 		if ( offset > 0 ) {
+			if ( !tmpItem ) {
+				tmpItem = mFirstItem;
+				offset--;
+			}
 			while ( offset-- >= 0 ) {
 				tmpItem = tmpItem.next;
 			}
@@ -148,7 +152,7 @@ public object ReverseIterator<T> {
 			return false;
 		}
 		if ( !mCurrentItem ) {
-			return bool mLastItem;
+			return false;
 		}
 
 		return bool mCurrentItem.next;
@@ -159,25 +163,34 @@ public object ReverseIterator<T> {
 			throw new OutOfBoundsException( "next(): index out of bounds" );
 		}
 
-		mCurrentItem = mCurrentItem.previous;
+		if ( !mCurrentItem ) {
+			mCurrentItem = mLastItem;
+		}
+		else {
+			mCurrentItem = mCurrentItem.previous;
+		}
 
 		return T mCurrentItem.value;
 	}
 
 	public T peek( int offset = 1 ) const throws {
-		if ( !mCurrentItem ) {
+		if ( !mCurrentItem && !mLastItem ) {
 			throw new Exception( "current(): iterator not initialized" );
 		}
 
 		var tmpItem = mCurrentItem;
 
 		if ( offset > 0 ) {
-			while ( offset-- > 0 ) {
+			if ( !tmpItem ) {
+				tmpItem = mLastItem;
+				offset--;
+			}
+			while ( offset-- >= 0 ) {
 				tmpItem = tmpItem.previous;
 			}
 		}
 		else if ( offset < 0 ) {
-			while ( offset++ < 0 ) {
+			while ( offset++ <= 0 ) {
 				tmpItem = tmpItem.next;
 			}
 		}
-- 
2.43.0


From ac92f086267ec0e55d54d95e6183dbea5887559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:49 +0000
Subject: [PATCH 036/154] fix: peek backwards with a reverse random access
 iterator

---
 Projects/Library/System/Collections/RandomAccessIterator.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/System/Collections/RandomAccessIterator.os b/Projects/Library/System/Collections/RandomAccessIterator.os
index cdc648d..2d8eff2 100644
--- a/Projects/Library/System/Collections/RandomAccessIterator.os
+++ b/Projects/Library/System/Collections/RandomAccessIterator.os
@@ -102,7 +102,7 @@ public object ReverseRandomAccessIterator<T> {
 	}
 
 	public T peek( int offset = 1 ) const throws {
-		return T mCollection.at( mCurrentIndex + offset );
+		return T mCollection.at( mCurrentIndex - offset );
 	}
 
 	public void reset() modify {
-- 
2.43.0


From dd5592a359260914f2afbabac3fe9d498713ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:49 +0000
Subject: [PATCH 037/154] fix: bounds of ranges with a negative step or without
 elements

---
 Projects/Library/System/Collections/Range.os | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/Collections/Range.os b/Projects/Library/System/Collections/Range.os
index 9a8d55f..017a37c 100644
--- a/Projects/Library/System/Collections/Range.os
+++ b/Projects/Library/System/Collections/Range.os
@@ -36,7 +36,7 @@ public object Range implements ICollection, IIterable {
 	}
 
 	public int at( int index ) const throws {
-		if ( index < 0 || index * mStep > mEnd - mStart ) {
+		if ( index < 0 || index >= size() ) {
 			throw new OutOfBoundsException( "index (" + index + ") is out of bounds" );
 		}
 
@@ -79,6 +79,10 @@ public object Range implements ICollection, IIterable {
 	}
 
 	public int size() const {
+		if ( ( mStep > 0 && mEnd < mStart ) || ( mStep < 0 && mEnd > mStart ) ) {
+			return 0;
+		}
+
 		return ( mEnd - mStart ) / mStep + 1;
 	}
 
-- 
2.43.0


From d7e05c547a13ff3e6737480a55062040b6aab78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:48 +0000
Subject: [PATCH 038/154] fix: declare the string returned by strchr and
 strrchr

Both functions return a string but were declared to return an int.
---
 Projects/Extensions/LIBC/cstring/strchr.h  | 2 +-
 Projects/Extensions/LIBC/cstring/strrchr.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Extensions/LIBC/cstring/strchr.h b/Projects/Extensions/LIBC/cstring/strchr.h
index 114af6d..c03f666 100644
--- a/Projects/Extensions/LIBC/cstring/strchr.h
+++ b/Projects/Extensions/LIBC/cstring/strchr.h
@@ -27,7 +27,7 @@ class STRCHR : public ExtensionMethod
 {
 public:
 	STRCHR()
-	: ExtensionMethod( 0, "strchr", Designtime::Int32Type::TYPENAME )
+	: ExtensionMethod( 0, "strchr", Designtime::StringType::TYPENAME )
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME ) );
diff --git a/Projects/Extensions/LIBC/cstring/strrchr.h b/Projects/Extensions/LIBC/cstring/strrchr.h
index 8fce434..715d61b 100644
--- a/Projects/Extensions/LIBC/cstring/strrchr.h
+++ b/Projects/Extensions/LIBC/cstring/strrchr.h
@@ -27,7 +27,7 @@ class STRRCHR : public ExtensionMethod
 {
 public:
 	STRRCHR()
-	: ExtensionMethod( 0, "strrchr", Designtime::Int32Type::TYPENAME )
+	: ExtensionMethod( 0, "strrchr", Designtime::StringType::TYPENAME )
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME ) );
-- 
2.43.0


From 755d98931cd5c0bb0817fb59d75a6d3dde2f1bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:48 +0000
Subject: [PATCH 039/154] fix: append the first characters of the source with
 strncat

The first num characters were skipped instead of appended.
---
 Projects/Extensions/LIBC/cstring/strncat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/LIBC/cstring/strncat.h b/Projects/Extensions/LIBC/cstring/strncat.h
index 5832058..b2b8abb 100644
--- a/Projects/Extensions/LIBC/cstring/strncat.h
+++ b/Projects/Extensions/LIBC/cstring/strncat.h
@@ -46,7 +46,7 @@ public:
 		auto param_source      = (*it++).value().toStdString();
 		auto param_num         = (*it++).value().toInt();
 
-		*result = Runtime::StringType( param_destination + param_source.substr( param_num ) );
+		*result = Runtime::StringType( param_destination + param_source.substr( 0, param_num ) );
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From f7340e8d724d39729ba4ed32175fa58eeca9537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:48 +0000
Subject: [PATCH 040/154] fix: accept a string to search for with strstr

The parameter was declared as int so no call with a string was possible.
---
 Projects/Extensions/LIBC/cstring/strstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Extensions/LIBC/cstring/strstr.h b/Projects/Extensions/LIBC/cstring/strstr.h
index b4922b5..b111755 100644
--- a/Projects/Extensions/LIBC/cstring/strstr.h
+++ b/Projects/Extensions/LIBC/cstring/strstr.h
@@ -30,7 +30,7 @@ public:
 	{
 		ParameterList params;
 		params.push_back( Parameter::CreateDesigntime( "str", Designtime::StringType::TYPENAME, 0 ) );
-		params.push_back( Parameter::CreateDesigntime( "substr", Designtime::Int32Type::TYPENAME, 0 ) );
+		params.push_back( Parameter::CreateDesigntime( "substr", Designtime::StringType::TYPENAME, 0 ) );
 
 		setSignature( params );
 	}
-- 
2.43.0


From f85a62d5e90bacb58c633f890392bbc4d43943ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:45 +0000
Subject: [PATCH 041/154] fix: a string does not end with a longer string

String.EndsWith raised an exception if the given string is longer.
---
 Projects/Library/System/String.os | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 0fd9697..3913fd8 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -91,7 +91,11 @@ public object String implements IIterable {
 	 * Returns true if the held string ends with the given string
 	 */
 	public bool EndsWith( string str ) const {
-		return str == substr( mValue, strlen( mValue ) - strlen( str ) );
+		if ( strlen( str ) > mSize ) {
+			return false;
+		}
+
+		return str == substr( mValue, mSize - strlen( str ) );
 	}
 
 	/*
-- 
2.43.0


From f5819ba40f03cb2d1eebcc5bb85108e1d9cbbaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:45 +0000
Subject: [PATCH 042/154] fix: do not replace replaced text again with
 String.ReplaceAll

The replacement never ended if the new string contains the old one.
---
 Projects/Library/System/String.os | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 3913fd8..5590632 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -157,11 +157,17 @@ public object String implements IIterable {
 	 */
 	public bool ReplaceAll( string oldStr, string newStr ) modify {
 		bool hasFound = false;
+		int position = 0;
 
-		while ( Replace( oldStr, newStr ) ) {
+		while ( strlen( oldStr ) > 0 && ( position = strfind( mValue, oldStr, position ) ) >= 0 ) {
+			mValue = substr( mValue, 0, position ) + newStr + substr( mValue, position + strlen( oldStr ) );
+
+			position += strlen( newStr );
 			hasFound = true;
 		}
 
+		mSize = strlen( mValue );
+
 		return hasFound;
 	}
 
-- 
2.43.0


From 8773349bd93182f724fa908d980c0fa816dd0a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:45 +0000
Subject: [PATCH 043/154] fix: update the length of a string if text is
 appended

The left shift operators left the old length.
---
 Projects/Library/System/String.os | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 5590632..0db3c97 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -380,6 +380,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( string other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -389,6 +390,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( bool other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -398,6 +400,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( double other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -407,6 +410,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( float other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -416,6 +420,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( int other const ) modify {
 		mValue += other;
+		mSize = strlen( mValue );
 
 		return this;
 	}
@@ -425,6 +430,7 @@ public object String implements IIterable {
 	 */
 	public String operator<<( String other const ) modify {
 		mValue += other.mValue;
+		mSize = strlen( mValue );
 
 		return this;
 	}
-- 
2.43.0


From 6be3a63ae5a363fbd81a5eca2a0010e6b05e2990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:45 +0000
Subject: [PATCH 044/154] fix: bounds of substrings accessed by index

Valid ranges inside of the string were treated as out of bounds.
---
 Projects/Library/System/String.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 0db3c97..050e2a9 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -446,7 +446,7 @@ public object String implements IIterable {
 	 * Returns the substring between given indices
 	 */
 	public string operator[]( int first, int last ) const throws {
-		if ( mSize >= first && mSize <= last - first ) {
+		if ( first >= 0 && first <= last && last <= mSize ) {
 			return substr( mValue, first, last - first );
 		}
 
-- 
2.43.0


From c30f18fa2709a6c19fb66479c76cbb03f5d5b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:45 +0000
Subject: [PATCH 045/154] fix: report an index out of bounds in
 String.TrimRight

The string was left unchanged, unlike String.TrimLeft.
---
 Projects/Library/System/String.os | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/String.os b/Projects/Library/System/String.os
index 050e2a9..c39e70c 100644
--- a/Projects/Library/System/String.os
+++ b/Projects/Library/System/String.os
@@ -283,7 +283,11 @@ public object String implements IIterable {
 	/*
 	 * Cuts away from the right side of the held string value
 	 */
-	public string TrimRight( int index ) modify {
+	public string TrimRight( int index ) modify throws {
+		if ( index < 0 || index >= mSize ) {
+			throw new OutOfBoundsException( "index( " + index + " ) is out of bounds!" );
+		}
+
 		mValue = substr( mValue, 0, strlen( mValue ) - index );
 		mSize = strlen( mValue );
 
-- 
2.43.0


From 2e5cc8043b6f7214708499d65a21835d3a8f482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:45 +0000
Subject: [PATCH 046/154] fix: end iteration of characters after the last one

An additional empty character was returned at the end.
---
 Projects/Library/System/CharacterIterator.os | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Projects/Library/System/CharacterIterator.os b/Projects/Library/System/CharacterIterator.os
index 32058e2..480c49d 100644
--- a/Projects/Library/System/CharacterIterator.os
+++ b/Projects/Library/System/CharacterIterator.os
@@ -36,7 +36,7 @@ public object CharacterIterator implements Iterator<string> {
 		if ( mCurrentIndex < 0 ) {
 			throw new NotInitializedException( "iterator not initialized" );
 		}
-		if ( mCurrentIndex > mLength ) {
+		if ( mCurrentIndex >= mLength ) {
 			throw new OutOfBoundsException( "index(" + mCurrentIndex + ") out of bounds" );
 		}
 
@@ -47,7 +47,7 @@ public object CharacterIterator implements Iterator<string> {
 	 * returns true if the iteration did not reach the end of the held string value
 	 */
 	public bool hasNext() const {
-		return mCurrentIndex < mLength;
+		return mCurrentIndex + 1 < mLength;
 	}
 
 	/*
@@ -55,7 +55,7 @@ public object CharacterIterator implements Iterator<string> {
 	 * throws OutOfBoundsException
 	 */
 	public string next() modify throws {
-		if ( mCurrentIndex + 1 > mLength ) {
+		if ( mCurrentIndex + 1 >= mLength ) {
 			throw new OutOfBoundsException( "index(" + mCurrentIndex + 1 + ") out of bounds" );
 		}
 
@@ -69,7 +69,7 @@ public object CharacterIterator implements Iterator<string> {
 	 * throws OutOfBoundsException
 	 */
 	public string peek( int offset = 1 ) const throws {
-		if ( mCurrentIndex + offset < 0 || mCurrentIndex + offset > mLength ) {
+		if ( mCurrentIndex + offset < 0 || mCurrentIndex + offset >= mLength ) {
 			throw new OutOfBoundsException( "index(" + mCurrentIndex + offset + ") out of bounds" );
 		}
 
-- 
2.43.0


From 36b9f6e5a91b599e7ff7690f1fe7659d1157d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:25 +0000
Subject: [PATCH 047/154] fix: support overloaded operators on results of
 expressions

An operator with an object on its left side was only looked up if that
side was a plain symbol, so chains like 'a + b + c' failed at run time and
comparisons of call results ignored the overloaded operator.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 49 +++++++++++++++++++++++-
 Projects/Core/Core/AST/TreeGenerator.h   |  1 +
 2 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 8003b5a..3e6ae09 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -294,8 +294,12 @@ Node* TreeGenerator::parseCondition(TokenIterator& start)
 		params.emplace_back(Parameter::CreateDesigntime(ANONYMOUS_OBJECT, Common::TypeDeclaration(rhs->getResultType())));
 
 		auto* exp = dynamic_cast<SymbolExpression*>(condition);
+		auto* operatorExp = exp ? nullptr : processObjectOperator(condition, operation, rhs);
 
-		if ( exp && blueprint->resolveMethod("operator" + operation.content(), params, false) ) {
+		if ( operatorExp ) {
+			condition = operatorExp;
+		}
+		else if ( exp && blueprint->resolveMethod("operator" + operation.content(), params, false) ) {
 			SymbolExpression* inner = exp;
 
 			while ( inner->mSymbolExpression ) {
@@ -352,6 +356,12 @@ Node* TreeGenerator::parseExpression(TokenIterator& start)
 
 		auto* exp = dynamic_cast<SymbolExpression*>(expr);
 
+		auto* operatorExp = exp ? nullptr : processObjectOperator(expr, operation, rhs);
+		if ( operatorExp ) {
+			expr = operatorExp;
+			continue;
+		}
+
 		if ( !exp || exp->isAtomicType() ) {
 			expr = new BinaryExpressionOwner(expr, operation, right, type);
 			continue;
@@ -400,6 +410,12 @@ Node* TreeGenerator::parseFactor(TokenIterator &start)
 
 		auto* exp = dynamic_cast<SymbolExpression*>(factor);
 
+		auto* operatorExp = exp ? nullptr : processObjectOperator(factor, operation, rhs);
+		if ( operatorExp ) {
+			factor = operatorExp;
+			continue;
+		}
+
 		if ( !exp || exp->isAtomicType() ) {
 			factor = new BinaryExpressionOwner(factor, operation, right, type);
 			continue;
@@ -753,6 +769,37 @@ Node* TreeGenerator::processPostfixNotOperator(TokenIterator& start, Node* baseE
 	return new UnaryExpression(Token(Token::Type::OPERATOR_VALIDATE), baseExp, UnaryExpression::ValueType::RValue);
 }
 
+/*
+ * calls the overloaded operator of an object that is the result of an expression
+ * returns a nullptr if the type of the object does not provide a matching operator
+ */
+Node* TreeGenerator::processObjectOperator(Node* baseExp, const Token& operation, Expression* rhs)
+{
+	auto* lhs = dynamic_cast<Expression*>(baseExp);
+
+	Designtime::BluePrintObject* scope = mRepository->findBluePrintObject(lhs->getResultType());
+	if ( !scope || scope->isAtomicType() ) {
+		return nullptr;
+	}
+
+	ParameterList params;
+	params.emplace_back(Parameter::CreateDesigntime(ANONYMOUS_OBJECT, Common::TypeDeclaration(rhs->getResultType())));
+
+	if ( !scope->resolveMethod("operator" + operation.content(), params, false) ) {
+		return nullptr;
+	}
+
+	auto* symbolExpression = new DesigntimeSymbolExpression("operator" + operation.content(), rhs->getResultType(), PrototypeConstraints(), false);
+	symbolExpression->mSurroundingScope = scope;
+
+	ExpressionList methodParams;
+	methodParams.emplace_back(rhs);
+
+	auto* method = process_method(symbolExpression, operation, methodParams);
+
+	return new ScopeExpression(lhs, method, method->getResultType());
+}
+
 Node* TreeGenerator::processPostfixObjectOperator(const std::string& objectType, TokenIterator& start, Expression* baseExp)
 {
 	Designtime::BluePrintObject* scope = mRepository->findBluePrintObject(objectType);
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index f5c0fa4..1951746 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -128,6 +128,7 @@ private: // Execution
 	Node* processIsOperator(TokenIterator& start, Node* baseExp) const;
 	static Node* processPostfixIncDecOperator(TokenIterator& start, Node* baseExp);
 	static Node* processPostfixNotOperator(TokenIterator& start, Node* baseExp);
+	Node* processObjectOperator(Node* baseExp, const Token& operation, Expression* rhs);
 	Node* processPostfixObjectOperator(const std::string& objectType, TokenIterator& start, Expression* baseExp);
 	Node* processPostfixRangeOperator(TokenIterator& start, Node* baseExp);
 	Node* processPostfixScopeOperator(TokenIterator& start, Node* baseExp);
-- 
2.43.0


From 4ee081c8add2f1cc4834dc17bbf266ecd1d74dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:12 +0000
Subject: [PATCH 048/154] fix: convert objects to bool with their typecast
 operator

The typecast operator to bool of an object was ignored, every valid object
became true.
---
 .../Core/Core/Runtime/BuildInTypes/BoolType.cpp   | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Projects/Core/Core/Runtime/BuildInTypes/BoolType.cpp b/Projects/Core/Core/Runtime/BuildInTypes/BoolType.cpp
index 340f934..3f1e20e 100644
--- a/Projects/Core/Core/Runtime/BuildInTypes/BoolType.cpp
+++ b/Projects/Core/Core/Runtime/BuildInTypes/BoolType.cpp
@@ -26,6 +26,15 @@ AtomicValue BoolType::DEFAULTVALUE = AtomicValue( false );
 std::string BoolType::TYPENAME = _bool;
 
 
+// objects without a typecast operator of their own are converted by their validity
+static bool hasBoolOperator( const Object* object )
+{
+	ParameterList params;
+	params.emplace_back( Parameter::CreateRuntime( BoolType::TYPENAME, AtomicValue( false ) ) );
+
+	return object->resolveMethod( "=operator", params, false, Visibility::Public ) != nullptr;
+}
+
 BoolType::BoolType( bool value )
 : Object( ANONYMOUS_OBJECT, SYSTEM_LIBRARY, TYPENAME, AtomicValue( value ) )
 {
@@ -64,6 +73,9 @@ BoolType::BoolType( const Object& other )
          other.isEnumerationValue() ) {
 		mValue = other.getValue().toBool();
 	}
+	else if ( hasBoolOperator( &other ) ) {
+		Object::operator_assign( &other );
+	}
 	else {
 		mValue = other.isValid();
 	}
@@ -89,6 +101,9 @@ void BoolType::operator_assign( const Object* rvalue )
          rvalue->isEnumerationValue() ) {
 		mValue = rvalue->getValue().toBool();
 	}
+	else if ( hasBoolOperator( rvalue ) ) {
+		Object::operator_assign( rvalue );
+	}
 	else {
 		mValue = rvalue->isValid();
 	}
-- 
2.43.0


From be4d2d6994787252b77091895226f0766881fefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:12 +0000
Subject: [PATCH 049/154] fix: use the typecast operator of objects assigned to
 atomic types

'int i = new Integer(5);' passes the type check but stored 0.
---
 Projects/Core/Core/Runtime/OperatorOverloading.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index 4b29ce3..52f3343 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -6,6 +6,7 @@
 
 // Project includes
 #include <Core/Common/Method.h>
+#include <Core/Common/Types.h>
 #include <Core/Runtime/BuildInTypes/BoolType.h>
 #include <Core/Runtime/BuildInTypes/DoubleType.h>
 #include <Core/Runtime/BuildInTypes/EnumerationType.h>
@@ -18,6 +19,7 @@
 #include <Core/Runtime/BuildInTypes/VoidType.h>
 #include <Core/Runtime/Exceptions.h>
 #include <Core/VirtualMachine/Controller.h>
+#include "TypeCast.h"
 #include "Utils.h"
 
 // Namespace declarations
@@ -41,6 +43,15 @@ void operator_binary_assign( Object* lvalue, Object* rvalue )
 		// or no type conversion is necessary
 		lvalue->assign( *rvalue );
 	}
+	else if ( isAtomicType( target ) && target != VoidType::TYPENAME && !rvalue->isAtomicType() && !rvalue->isEnumerationValue() && rvalue->isValid() ) {
+		// only the object itself knows how to convert it
+		Object tmp;
+		tmp = *rvalue;
+
+		typecast( &tmp, target );
+
+		lvalue->assign( tmp );
+	}
 	else if ( target == BoolType::TYPENAME ) {
 		lvalue->assign( BoolType( rvalue->getValue().toBool() ) );
 	}
-- 
2.43.0


From 169d1a1b1f542692e07e148395851fbe896749e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:12 +0000
Subject: [PATCH 050/154] fix: pass on exceptions thrown by typecast operators

An exception thrown by a typecast operator was dropped and the conversion
went on with a default value.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 4 ++--
 Projects/Core/Core/Object.cpp              | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index e3081c5..8f6d72f 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1083,7 +1083,7 @@ void TreeInterpreter::visitAssignment(AssignmentStatement* node)
 	Runtime::Object& lvalue = resolveLValue( getScope(), dynamic_cast<SymbolExpression*>( node->mLeftExpression ), false, Visibility::Designtime );
 
 	// execute assignment to lvalue (this may involve a type cast)
-	Runtime::operator_binary_assign(&lvalue, &right);
+	tryControl(Runtime::operator_binary_assign(&lvalue, &right));
 }
 
 void TreeInterpreter::visitBreak(BreakStatement* /*node*/)
@@ -1492,7 +1492,7 @@ Runtime::Object* TreeInterpreter::visitTypeDeclaration(TypeDeclaration* node)
 		tryEvaluateReturnNull( node->mAssignmentExpression, &right );
 
 		// execute assignment to lvalue (this may involve a type cast)
-		Runtime::operator_binary_assign( lvalue, &right );
+		tryControlReturnNull(Runtime::operator_binary_assign( lvalue, &right ));
 	}
 
 	return lvalue;
diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 2fc7208..0577362 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -377,7 +377,10 @@ void Object::operator_assign(const Object *other)
 
 	::Slang::MethodSymbol* value_operator = other->resolveMethod("=operator", params, false, Visibility::Public);
 	if ( value_operator ) {
-		Controller::Instance().thread(0)->execute(other->getThis(), dynamic_cast<Common::Method*>(value_operator), params, this);
+		const auto controlflow = Controller::Instance().thread(0)->execute(other->getThis(), dynamic_cast<Common::Method*>(value_operator), params, this);
+		if ( controlflow == ControlFlow::ExitProgram || controlflow == ControlFlow::Throw ) {
+			throw controlflow;
+		}
 		return;
 	}
 
-- 
2.43.0


From cccaf8c0b804771be37854cc202d37c31fa3cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:18 +0000
Subject: [PATCH 051/154] fix: use the subscript operator of a member object

'a.b[i]' called the subscript operator of 'a'.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 3e6ae09..40fc8e0 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1841,8 +1841,13 @@ Expression* TreeGenerator::process_subscript(TokenIterator& token, SymbolExpress
 		throw Common::Exceptions::UnknownIdentifier("unknown identifier '" + type + "'", token->position());
 	}
 
-	symbol->mSymbolExpression = new RuntimeSymbolExpression("operator[]", "", true, true, obj->isAtomicType());
-	symbol->mSymbolExpression->mSurroundingScope = obj;
+	SymbolExpression* inner = symbol;
+	while ( inner->mSymbolExpression ) {
+		inner = inner->mSymbolExpression;
+	}
+
+	inner->mSymbolExpression = new RuntimeSymbolExpression("operator[]", "", true, true, obj->isAtomicType());
+	inner->mSymbolExpression->mSurroundingScope = obj;
 
 	const Token opToken(Token::Category::Operator, Token::Type::BRACKET_OPEN, "[", token->position(), false);
 	ExpressionList params;
-- 
2.43.0


From 26acf6677da46d06c1530970c9ae24e1c82eb6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:12 +0000
Subject: [PATCH 052/154] fix: compound assignment to member objects

'a.b += c' looked up the operator in 'a' instead of 'a.b' if 'b' is an
object.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 40fc8e0..d63c7bb 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1036,10 +1036,19 @@ Expression* TreeGenerator::process_assignment_expression(TokenIterator& token, S
 				throw Designtime::Exceptions::SyntaxError("'" + lhs->getResultType() + "' is not a valid type", operation.position());
 			}
 
-			SymbolExpression* sym = new DesigntimeSymbolExpression(lhs->mName, lhs->getResultType(), PrototypeConstraints(), false);
-			sym->mSurroundingScope = lhs->mSurroundingScope;
-			sym->mSymbolExpression = new DesigntimeSymbolExpression("operator" + operation.content(), resolveType(token, lhs, operation, rhs), PrototypeConstraints(), false);
-			sym->mSymbolExpression->mSurroundingScope = blueprint;
+			SymbolExpression* sym = nullptr;
+			SymbolExpression** next = &sym;
+
+			// copy all parts of our lvalue because it is still needed as target of the assignment
+			for ( SymbolExpression* part = lhs; part; part = part->mSymbolExpression ) {
+				(*next) = new DesigntimeSymbolExpression(part->mName, lhs->getResultType(), PrototypeConstraints(), false);
+				(*next)->mSurroundingScope = part->mSurroundingScope;
+
+				next = &(*next)->mSymbolExpression;
+			}
+
+			(*next) = new DesigntimeSymbolExpression("operator" + operation.content(), resolveType(token, lhs, operation, rhs), PrototypeConstraints(), false);
+			(*next)->mSurroundingScope = blueprint;
 
 			ExpressionList params;
 			params.emplace_back(rhs);
-- 
2.43.0


From fce069dd1d6fa0a060b2f845a7080f0d80c2ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:58 +0000
Subject: [PATCH 053/154] fix: default values of parameters that follow an
 object

An omitted argument became the object passed as the preceding argument
instead of the default value.
---
 Projects/Core/Core/Common/Method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Common/Method.cpp b/Projects/Core/Core/Common/Method.cpp
index 491d7ae..c3f56de 100644
--- a/Projects/Core/Core/Common/Method.cpp
+++ b/Projects/Core/Core/Common/Method.cpp
@@ -295,9 +295,9 @@ ParameterList Method::mergeParameters(const ParameterList& params) const
 
 	auto paramIt = params.begin();
 
-	Runtime::Reference ref;
-
 	for ( auto sigIt = mSignature.begin(); sigIt != mSignature.end(); ++sigIt ) {
+		Runtime::Reference ref;
+
 		// initialize parameter with default value
 		auto value = sigIt->value();
 
-- 
2.43.0


From fe42af5d9347d9dd0ab9c50a2bc2e4c9673a19a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:06 +0000
Subject: [PATCH 054/154] fix: prefer the overload without default parameters

---
 .../Core/Core/Designtime/BluePrintObject.cpp  |  2 +-
 Projects/Core/Core/Scope.cpp                  | 25 ++++++++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index 09dde6e..ef031b6 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -91,7 +91,7 @@ void BluePrintObject::defineMethod(const std::string& name, Common::Method* meth
 {
 	// try to override abstract methods a.k.a. implement an interface method
 	auto* oldMethod = dynamic_cast<Common::Method*>(resolveMethod(method->getName(), method->provideSignature(), true, Visibility::Designtime));
-	if ( oldMethod ) {
+	if ( oldMethod && oldMethod->provideSignature().size() == method->provideSignature().size() ) {
 		if ( oldMethod->getMemoryLayout() != MemoryLayout::Abstract && oldMethod->getMemoryLayout() != MemoryLayout::Virtual ) {
 			throw Exceptions::SyntaxError("Method '" + oldMethod->getFullScopeName() + "' is not abstract or marked with " + std::string(MEMORY_LAYOUT_VIRTUAL ) );
 		}
diff --git a/Projects/Core/Core/Scope.cpp b/Projects/Core/Core/Scope.cpp
index 19244b4..696c370 100644
--- a/Projects/Core/Core/Scope.cpp
+++ b/Projects/Core/Core/Scope.cpp
@@ -218,7 +218,8 @@ void MethodScope::defineMethod(const std::string& name, Common::Method* method)
 		throw Common::Exceptions::Exception("invalid method pointer provided");
 	}
 
-	if ( MethodScope::resolveMethod(name, method->provideSignature(), true) ) {
+	auto* duplicate = dynamic_cast<Common::Method*>(MethodScope::resolveMethod(name, method->provideSignature(), true));
+	if ( duplicate && duplicate->provideSignature().size() == method->provideSignature().size() ) {
 		throw Common::Exceptions::DuplicateIdentifier("duplicate method '" + method->getFullScopeName() + "(" + toString(method->provideSignature()) + ")' added with same signature");
 	}
 
@@ -359,22 +360,40 @@ Symbol* MethodScope::resolve(const std::string& name, bool onlyCurrentScope, Vis
 
 MethodSymbol* MethodScope::resolveMethod(const std::string& name, const ParameterList& params, bool onlyCurrentScope, Visibility::E visibility) const
 {
+	Common::Method* defaulted = nullptr;	// matches only with the help of default parameters
+
 	for ( auto& method : mMethods ) {
 		if ( method->getVisibility() >= visibility ) {
 			if ( method->getName() == name && method->isSignatureValid(params) ) {
-				return method;
+				if ( method->provideSignature().size() == params.size() ) {
+					return method;
+				}
+
+				defaulted = method;
 			}
 		}
 	}
 
+	if ( defaulted ) {
+		return defaulted;
+	}
+
 	for ( auto& method : mExternalMethods ) {
 		if ( method->getVisibility() >= visibility ) {
 			if ( method->getName() == name && method->isSignatureValid(params) ) {
-				return method;
+				if ( method->provideSignature().size() == params.size() ) {
+					return method;
+				}
+
+				defaulted = method;
 			}
 		}
 	}
 
+	if ( defaulted ) {
+		return defaulted;
+	}
+
 	if ( visibility != Visibility::Designtime ) {
 		Symbol* base = resolve(IDENTIFIER_BASE, true, Visibility::Designtime);
 		if ( base ) {
-- 
2.43.0


From a287a02c1d401b5b34a250845ee27f086335e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:47 +0000
Subject: [PATCH 055/154] fix: prepare generic types that first occur in
 signatures

---
 Projects/Core/Core/AST/TreeGenerator.cpp      |  4 +++
 .../Core/Core/Designtime/Parser/Parser.cpp    | 26 +++++++++++++++++++
 Projects/Core/Core/Designtime/Parser/Parser.h |  1 +
 .../Core/Core/VirtualMachine/Repository.cpp   | 25 ++++++++++++++++++
 .../Core/Core/VirtualMachine/Repository.h     |  1 +
 5 files changed, 57 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index d63c7bb..8ced2b1 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -237,6 +237,8 @@ void TreeGenerator::initialize(Common::Method* method)
 			continue;
 		}
 
+		mRepository->prepareConstraintType(param.type());
+
 		Runtime::Object* object = mRepository->createInstance(param.type(), param.name(), param.typeConstraints());
 		object->setIsReference(param.access() == AccessMode::ByReference);
 		object->setMutability(param.mutability());
@@ -1732,6 +1734,8 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, const
 		case LanguageFeatureState::Unstable: OSwarn("executed method '" + method->getFullScopeName() + "' is marked as unstable in " + token.position().toString()); break;
 	}
 
+	mRepository->prepareConstraintType(method->QualifiedTypename());
+
 	return new MethodExpression(symbol, expressions, method->QualifiedTypename(), method->isConst(), method->getEnclosingScope() == mMethod->getEnclosingScope());
 }
 
diff --git a/Projects/Core/Core/Designtime/Parser/Parser.cpp b/Projects/Core/Core/Designtime/Parser/Parser.cpp
index 144c088..3afc486 100644
--- a/Projects/Core/Core/Designtime/Parser/Parser.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Parser.cpp
@@ -3,6 +3,7 @@
 #include "Parser.h"
 
 // Library includes
+#include <algorithm>
 
 // Project includes
 #include <Core/Common/Types.h>
@@ -110,6 +111,31 @@ std::string Parser::buildRuntimeConstraintTypename(const std::string& name, cons
 	return type;
 }
 
+Common::TypeDeclaration Parser::splitRuntimeConstraintTypename(const std::string& type)
+{
+	const auto open = type.find('<');
+	const auto close = type.rfind('>');
+
+	if ( open == std::string::npos || close == std::string::npos ) {
+		return Common::TypeDeclaration(type);
+	}
+
+	PrototypeConstraints constraints;
+
+	auto start = open + 1;
+	while ( start <= close ) {
+		const auto end = std::min(type.find(',', start), close);
+
+		constraints.emplace_back(
+			PrototypeConstraint(constraints.size(), "", type.substr(start, end - start), "")
+		);
+
+		start = end + 1;
+	}
+
+	return Common::TypeDeclaration(type.substr(0, open), constraints);
+}
+
 Ancestors Parser::collectInheritance(TokenIterator& token)
 {
 	Ancestors ancestors;
diff --git a/Projects/Core/Core/Designtime/Parser/Parser.h b/Projects/Core/Core/Designtime/Parser/Parser.h
index 760ddbf..03e43d0 100644
--- a/Projects/Core/Core/Designtime/Parser/Parser.h
+++ b/Projects/Core/Core/Designtime/Parser/Parser.h
@@ -33,6 +33,7 @@ class Parser
 public:
 	static std::string buildDesigntimeConstraintTypename(const std::string& name, const PrototypeConstraints& constraints);
 	static std::string buildRuntimeConstraintTypename(const std::string& name, const PrototypeConstraints& constraints);
+	static Common::TypeDeclaration splitRuntimeConstraintTypename(const std::string& type);
 
 	static TokenList collectScopeTokens(TokenIterator& token);
 	static Ancestors collectInheritance(TokenIterator& token);
diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 980e1c7..abc181c 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -572,6 +572,8 @@ void Repository::initBluePrintObject(Designtime::BluePrintObject* blueprint)
 	// prepare methods
 	MethodScope::MethodCollection methods = blueprint->provideMethods();
 	for ( auto method : methods ) {
+		prepareConstraintType(method->QualifiedTypename());
+
 		Designtime::BluePrintObject* baseType = findBluePrintObject(method->QualifiedTypename());
 		if ( !baseType ) {
 			throw Common::Exceptions::UnknownIdentifier("unknown type '" + method->QualifiedTypename() + "'!");
@@ -752,6 +754,29 @@ void Repository::initTypeSystem(Designtime::BluePrintObject* blueprint)
 	}
 }
 
+/*
+ * prepares a type whose constraints are already part of its name (i.e. "List<int>")
+ */
+void Repository::prepareConstraintType(const std::string& type)
+{
+	if ( findBluePrintObject(type) ) {
+		return;	// type is already known
+	}
+
+	const auto typeDeclaration = Designtime::Parser::splitRuntimeConstraintTypename(type);
+	if ( typeDeclaration.mConstraints.empty() || !findBluePrintObject(typeDeclaration.mName) ) {
+		return;
+	}
+
+	for ( const auto& constraint : typeDeclaration.mConstraints ) {
+		if ( !findBluePrintObject(constraint.mRunType) ) {
+			return;
+		}
+	}
+
+	prepareType(typeDeclaration);
+}
+
 void Repository::prepareType(const Common::TypeDeclaration& type)
 {
 	// resolve type constraints
diff --git a/Projects/Core/Core/VirtualMachine/Repository.h b/Projects/Core/Core/VirtualMachine/Repository.h
index f3435e9..abdc56e 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.h
+++ b/Projects/Core/Core/VirtualMachine/Repository.h
@@ -61,6 +61,7 @@ public:
 	Designtime::BluePrintObject* findBluePrintObject(const std::string& type) const;
 	Designtime::BluePrintObject* findBluePrintObject(const Common::TypeDeclaration& typeDeclaration) const;
 
+	void prepareConstraintType(const std::string& type);
 	void prepareType(const Common::TypeDeclaration& type);
 
 private:
-- 
2.43.0


From e2b4e4e5d9ea80b8cc157bc93c6b7fbc20db864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:35 +0000
Subject: [PATCH 056/154] fix: types of generic members inside generic classes

---
 Projects/Core/Core/Common/PrototypeConstraint.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Common/PrototypeConstraint.cpp b/Projects/Core/Core/Common/PrototypeConstraint.cpp
index 90d50ad..dcd1adb 100644
--- a/Projects/Core/Core/Common/PrototypeConstraint.cpp
+++ b/Projects/Core/Core/Common/PrototypeConstraint.cpp
@@ -93,10 +93,12 @@ PrototypeConstraints PrototypeConstraints::buildRuntimeConstraints(const Prototy
 		PrototypeConstraint constraint = other.lookupConstraint(thisIt->mDesignType);
 
 		if ( constraint.hasRuntimeType() ) {
-			result.emplace_back(constraint);
+			// the index belongs to our own constraints, not to the other ones
+			result.emplace_back(PrototypeConstraint(thisIt->mIndex, constraint.mDesignType, constraint.mRunType, constraint.mConstraint));
 		}
 		else {
-			result.emplace_back(PrototypeConstraint(thisIt->mIndex, thisIt->mDesignType, _object, VALUE_NONE));
+			// not one of the other's types, so this is already a concrete type
+			result.emplace_back(PrototypeConstraint(thisIt->mIndex, thisIt->mDesignType, thisIt->hasDesigntimeType() ? thisIt->mDesignType : _object, VALUE_NONE));
 		}
 	}
 
-- 
2.43.0


From f64431c243fe0c2f0055c24f963cdf0918830bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:35 +0000
Subject: [PATCH 057/154] fix: assign objects to variables of their generic
 base class

---
 Projects/Core/Core/VirtualMachine/Repository.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index abc181c..7337dc7 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -748,8 +748,10 @@ void Repository::initTypeSystem(Designtime::BluePrintObject* blueprint)
 		Designtime::Ancestors ancestors = blueprint->getInheritance();
 
 		for ( const auto& ancestor : ancestors ) {
-			define(ancestor.name(), Token::Type::ASSIGN,   blueprint->QualifiedTypename(), ancestor.name());
-			define(ancestor.name(), Token::Type::TYPECAST, blueprint->QualifiedTypename(), ancestor.name());
+			const std::string name = Designtime::Parser::buildRuntimeConstraintTypename(ancestor.name(), ancestor.constraints());
+
+			define(name, Token::Type::ASSIGN,   blueprint->QualifiedTypename(), name);
+			define(name, Token::Type::TYPECAST, blueprint->QualifiedTypename(), name);
 		}
 	}
 }
-- 
2.43.0


From 70e17a8e9a57cf480404a214225c64b0118f9359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:03 +0000
Subject: [PATCH 058/154] fix: generic types qualified with their namespace

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 8ced2b1..c4d06f9 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2440,6 +2440,12 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 
 			return nullptr;
 		}
+
+		// a type that is qualified with its namespace keeps its constraints
+		auto* innerType = dynamic_cast<DesigntimeSymbolExpression*>(symbol->mSymbolExpression);
+		if ( innerType && result->getSymbolType() == Symbol::IType::NamespaceSymbol ) {
+			dynamic_cast<DesigntimeSymbolExpression*>(symbol)->mConstraints = innerType->mConstraints;
+		}
 	}
 	symbol->mSurroundingScope = base;
 
-- 
2.43.0


From 3fdfdeafce6e1d20d8477e9f669e9b89218d0777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:41 +0000
Subject: [PATCH 059/154] fix: catch exceptions of generic types

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 8f6d72f..d147d06 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1412,7 +1412,8 @@ void TreeInterpreter::visitTry(TryStatement* node)
 		// determine correct catch-block (if a correct one exists)
 		for ( auto& stmt : node->mCatchStatements ) {
 			// check if we have a catch-block with a given type that matches the thrown exception type
-			if ( stmt->mTypeDeclaration && !(exception && exception->isInstanceOf(stmt->mTypeDeclaration->mType)) ) {
+			if ( stmt->mTypeDeclaration && !(exception && exception->isInstanceOf(
+					Designtime::Parser::buildRuntimeConstraintTypename(stmt->mTypeDeclaration->mType, stmt->mTypeDeclaration->mConstraints))) ) {
 				// exception type does not match
 				continue;
 			}
-- 
2.43.0


From d9302330b3ecfd6269e1f9a431982bf247ae81f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:04 +0000
Subject: [PATCH 060/154] fix: accept indirect descendants of a generic type's
 constraint

---
 .../Core/Core/VirtualMachine/Repository.cpp   | 22 ++++++++++++++++++-
 .../Core/Core/VirtualMachine/Repository.h     |  2 ++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 7337dc7..2ffd90c 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -69,7 +69,7 @@ Designtime::BluePrintObject* Repository::createBluePrintFromPrototype(Designtime
 		if ( !generic ) {
 			throw Common::Exceptions::UnknownIdentifier(constIt->mRunType + " is unknown");
 		}
-		if ( !constIt->mConstraint.empty() && generic->QualifiedTypename() != constIt->mConstraint && !generic->inheritsFrom(constIt->mConstraint) ) {
+		if ( !constIt->mConstraint.empty() && generic->QualifiedTypename() != constIt->mConstraint && !inheritsFrom(generic, constIt->mConstraint) ) {
 			throw Common::Exceptions::TypeMismatch(constIt->mRunType + " is no or does not inherit from " + constIt->mConstraint);
 		}
 
@@ -606,6 +606,26 @@ void Repository::initBluePrintObject(Designtime::BluePrintObject* blueprint)
 	initTypeSystem(blueprint);
 }
 
+/*
+ * checks if the given blueprint inherits directly or indirectly from the given type
+ */
+bool Repository::inheritsFrom(const Designtime::BluePrintObject* blueprint, const std::string& type) const
+{
+	if ( blueprint->inheritsFrom(type) ) {
+		return true;
+	}
+
+	for ( const auto& ancestor : blueprint->getInheritance() ) {
+		const auto* base = findBluePrintObject(ancestor.name());
+
+		if ( base && inheritsFrom(base, type) ) {
+			return true;
+		}
+	}
+
+	return false;
+}
+
 /*
  * initializes type system for given blueprint object
  */
diff --git a/Projects/Core/Core/VirtualMachine/Repository.h b/Projects/Core/Core/VirtualMachine/Repository.h
index abdc56e..23a62c7 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.h
+++ b/Projects/Core/Core/VirtualMachine/Repository.h
@@ -72,6 +72,8 @@ private:
 	Runtime::Object* createObject(const std::string& name, Designtime::BluePrintObject* blueprint, InitilizationType::E initialize);
 	Runtime::Object* createUserType(const std::string& name, Designtime::BluePrintObject* blueprint, InitilizationType::E initialize);
 
+	bool inheritsFrom(const Designtime::BluePrintObject* blueprint, const std::string& type) const;
+
 	void initBluePrintObject(Designtime::BluePrintObject* blueprint);
 	void initTypeSystem(Designtime::BluePrintObject* blueprint);
 
-- 
2.43.0


From ce020d06d9f81ab09aaab8b48220e2e478ca4657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:25 +0000
Subject: [PATCH 061/154] fix: assign objects to variables of indirect base
 types

---
 .../Core/Core/VirtualMachine/Repository.cpp   | 21 +++++++++++++------
 .../Core/Core/VirtualMachine/Repository.h     |  1 +
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 2ffd90c..03efa42 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -764,14 +764,23 @@ void Repository::initTypeSystem(Designtime::BluePrintObject* blueprint)
 	define(blueprint->QualifiedTypename(), Token::Type::COMPARE_EQUAL_CONTENT, blueprint->QualifiedTypename(), _bool);
 
 	// add assignment entries for extended and implemented objects
-	{
-		Designtime::Ancestors ancestors = blueprint->getInheritance();
+	initAncestorTypes(blueprint, blueprint->QualifiedTypename());
+}
+
+/*
+ * adds assignment and typecast entries from the given type to all direct and indirect ancestors of the blueprint
+ */
+void Repository::initAncestorTypes(const Designtime::BluePrintObject* blueprint, const std::string& type)
+{
+	for ( const auto& ancestor : blueprint->getInheritance() ) {
+		const std::string name = Designtime::Parser::buildRuntimeConstraintTypename(ancestor.name(), ancestor.constraints());
 
-		for ( const auto& ancestor : ancestors ) {
-			const std::string name = Designtime::Parser::buildRuntimeConstraintTypename(ancestor.name(), ancestor.constraints());
+		define(name, Token::Type::ASSIGN,   type, name);
+		define(name, Token::Type::TYPECAST, type, name);
 
-			define(name, Token::Type::ASSIGN,   blueprint->QualifiedTypename(), name);
-			define(name, Token::Type::TYPECAST, blueprint->QualifiedTypename(), name);
+		const auto* base = findBluePrintObject(ancestor.name());
+		if ( base ) {
+			initAncestorTypes(base, type);
 		}
 	}
 }
diff --git a/Projects/Core/Core/VirtualMachine/Repository.h b/Projects/Core/Core/VirtualMachine/Repository.h
index 23a62c7..3d10e5f 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.h
+++ b/Projects/Core/Core/VirtualMachine/Repository.h
@@ -75,6 +75,7 @@ private:
 	bool inheritsFrom(const Designtime::BluePrintObject* blueprint, const std::string& type) const;
 
 	void initBluePrintObject(Designtime::BluePrintObject* blueprint);
+	void initAncestorTypes(const Designtime::BluePrintObject* blueprint, const std::string& type);
 	void initTypeSystem(Designtime::BluePrintObject* blueprint);
 
 private:
-- 
2.43.0


From 6c7ec4856480e78bb535fab4f7a5a58988e6701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:22:27 +0000
Subject: [PATCH 062/154] fix: overloads that differ only in the instance of a
 generic parameter

---
 Projects/Core/Core/Common/Method.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Projects/Core/Core/Common/Method.cpp b/Projects/Core/Core/Common/Method.cpp
index c3f56de..01cc10c 100644
--- a/Projects/Core/Core/Common/Method.cpp
+++ b/Projects/Core/Core/Common/Method.cpp
@@ -255,6 +255,13 @@ bool Method::isSignatureValid(const ParameterList& params) const
 				return false;
 			}
 
+			// compare constraints that are not yet part of the types
+			if ( !sigIt->typeConstraints().empty() && !paramIt->typeConstraints().empty() &&
+				 PrototypeConstraints().extractTypes(sigIt->typeConstraints()) != PrototypeConstraints().extractTypes(paramIt->typeConstraints()) ) {
+				// we received a different instance of the same generic type
+				return false;
+			}
+
 /*
 			// compare received const-ness with expected const-ness
 			if ( paramIt->mutability() == sigIt->mutability() ||
-- 
2.43.0


From feb944d501a4a003948bdcb6f0deae8c4dc0169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:54 +0000
Subject: [PATCH 063/154] fix: caught exceptions of generic types need no
 throws

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index c4d06f9..d8adcd7 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2101,7 +2101,9 @@ Statement* TreeGenerator::process_try(TokenIterator& token)
 				++tmp;
 
 				// remove caught exception from list of not-caught exceptions
-				mThrownExceptions.erase(typeDeclaration->mType);
+				mThrownExceptions.erase(
+					Designtime::Parser::buildRuntimeConstraintTypename(typeDeclaration->mType, typeDeclaration->mConstraints)
+				);
 			}
 			else {
 				// this is a catch block without an exception type (= a "catch all"-block), so we have to clear all exceptions
-- 
2.43.0


From d1539acd98a8f3d95f063bd636d2d798e32c2441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:48 +0000
Subject: [PATCH 064/154] fix: keep the access mode of generic parameters

---
 Projects/Core/Core/Common/Method.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/Projects/Core/Core/Common/Method.cpp b/Projects/Core/Core/Common/Method.cpp
index 01cc10c..2b74cc3 100644
--- a/Projects/Core/Core/Common/Method.cpp
+++ b/Projects/Core/Core/Common/Method.cpp
@@ -179,8 +179,6 @@ void Method::initialize(const PrototypeConstraints& constraints)
 
 	// Update method signature
 	// {
-	auto atomicTypes = provideAtomicTypes();
-
 	for ( auto& paramIt : mSignature ) {
 		// look up parameter type in object-wide prototype constraints
 		type = constraints.lookupType(paramIt.type());
@@ -191,18 +189,12 @@ void Method::initialize(const PrototypeConstraints& constraints)
 		}
 
 		if ( paramIt.type() != type ) {
-			AccessMode::E access = AccessMode::ByValue;
-
-			if ( atomicTypes.find(type) == atomicTypes.end() ) {
-				access = AccessMode::ByReference;
-			}
-
 			paramIt = Parameter::CreateDesigntime(paramIt.name(),
 													 TypeDeclaration(type, PrototypeConstraints(), paramIt.mutability()),
 													 paramIt.value(),
 													 paramIt.hasDefaultValue(),
 													 paramIt.mutability(),
-													 access);
+													 paramIt.access());
 		}
 	}
 	// }
-- 
2.43.0


From ae1292e70ea16dd0d5087ca7d5436fc5bc876c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:14 +0000
Subject: [PATCH 065/154] fix: objects are instances of the interfaces their
 interfaces are based on

---
 .../Core/Core/VirtualMachine/Repository.cpp   | 34 +++++++++++++++----
 .../Core/Core/VirtualMachine/Repository.h     |  1 +
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 03efa42..7de6afa 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -302,13 +302,7 @@ Runtime::Object* Repository::createUserType(const std::string& name, Designtime:
 						// ignore hidden ancestors
 					} break;
 					case Designtime::Ancestor::Type::Implements: {
-						auto* ancestor = createReference(blueIt->second, blueIt->first, ancestorIt.constraints(), InitilizationType::None);
-						ancestor->setParent(blueprint->getEnclosingScope());
-
-						object->define( "__" + ancestor->getName() + "__", ancestor);
-
-						// add our newly created ancestor to our inheritance
-						object->addInheritance(ancestorIt, ancestor);
+						implementInterface(object, blueIt->second, ancestorIt, blueprint->getEnclosingScope());
 					} break;
 					case Designtime::Ancestor::Type::Replicates: {
 						// this is empty by intend
@@ -606,6 +600,32 @@ void Repository::initBluePrintObject(Designtime::BluePrintObject* blueprint)
 	initTypeSystem(blueprint);
 }
 
+/*
+ * adds the given interface and all interfaces it is based on to the inheritance of the given object
+ */
+void Repository::implementInterface(Runtime::Object* object, Designtime::BluePrintObject* interface, const Designtime::Ancestor& ancestor, IScope* parent)
+{
+	if ( object->resolve("__" + ancestor.name() + "__", true, Visibility::Designtime) ) {
+		return;	// already implemented
+	}
+
+	auto* symbol = createReference(interface, ancestor.name(), ancestor.constraints(), InitilizationType::None);
+	symbol->setParent(parent);
+
+	object->define("__" + ancestor.name() + "__", symbol);
+
+	// add our newly created ancestor to our inheritance
+	object->addInheritance(ancestor, symbol);
+
+	for ( const auto& base : interface->getInheritance() ) {
+		auto* blueprint = findBluePrintObject(base.name());
+
+		if ( blueprint ) {
+			implementInterface(object, blueprint, base, parent);
+		}
+	}
+}
+
 /*
  * checks if the given blueprint inherits directly or indirectly from the given type
  */
diff --git a/Projects/Core/Core/VirtualMachine/Repository.h b/Projects/Core/Core/VirtualMachine/Repository.h
index 3d10e5f..1389929 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.h
+++ b/Projects/Core/Core/VirtualMachine/Repository.h
@@ -72,6 +72,7 @@ private:
 	Runtime::Object* createObject(const std::string& name, Designtime::BluePrintObject* blueprint, InitilizationType::E initialize);
 	Runtime::Object* createUserType(const std::string& name, Designtime::BluePrintObject* blueprint, InitilizationType::E initialize);
 
+	void implementInterface(Runtime::Object* object, Designtime::BluePrintObject* interface, const Designtime::Ancestor& ancestor, IScope* parent);
 	bool inheritsFrom(const Designtime::BluePrintObject* blueprint, const std::string& type) const;
 
 	void initBluePrintObject(Designtime::BluePrintObject* blueprint);
-- 
2.43.0


From ee05152dc09ad06c1e320f5f860a8a50c247ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:14 +0000
Subject: [PATCH 066/154] fix: methods of interfaces that are based on other
 interfaces

---
 Projects/Core/Core/Designtime/BluePrintObject.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index ef031b6..d5dd651 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -373,6 +373,13 @@ void BluePrintObject::prepareParents(Repository* repository)
 				defineExternalMethod(method->QualifiedTypename(), method);
 			}
 		}
+
+		// locally define methods of the interfaces our parent interface is based on
+		if ( parent->mBluePrintType == BlueprintType::Interface ) {
+			for ( auto& method : parent->mExternalMethods ) {
+				defineExternalMethod(method->QualifiedTypename(), method);
+			}
+		}
 	}
 
 	mIsPrepared = true;
-- 
2.43.0


From ce26f5bc7335ff9ba1ea07a62c68da679c17f4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:39 +0000
Subject: [PATCH 067/154] fix: detect circular inheritance over more than two
 types

---
 Projects/Core/Core/Designtime/BluePrintObject.cpp | 7 ++++++-
 Projects/Core/Core/Designtime/BluePrintObject.h   | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index d5dd651..36e3947 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -56,6 +56,7 @@ BluePrintObject::BluePrintObject()
   mIsAtomicType(false),
   mFilename(ANONYMOUS_OBJECT),
   mIsPrepared(false),
+  mIsPreparing(false),
   mIsReference(false),
   mQualifiedTypename(ANONYMOUS_OBJECT),
   mUnqualifiedTypename(ANONYMOUS_OBJECT)
@@ -70,6 +71,7 @@ BluePrintObject::BluePrintObject(const std::string& unqualifiedTypename, std::st
   mIsAtomicType(false),
   mFilename(std::move(filename)),
   mIsPrepared(false),
+  mIsPreparing(false),
   mIsReference(false),
   mQualifiedTypename(unqualifiedTypename),
   mUnqualifiedTypename(unqualifiedTypename)
@@ -341,6 +343,8 @@ void BluePrintObject::prepareParents(Repository* repository)
 	// }
 */
 
+	mIsPreparing = true;
+
 	for ( const auto& it : mInheritance ) {
 		BluePrintObject* parent = repository->findBluePrintObject(it.typeDeclaration());
 
@@ -349,7 +353,7 @@ void BluePrintObject::prepareParents(Repository* repository)
 		}
 
 		// detect circular inheritance
-		if ( parent->inheritsFrom(QualifiedTypename()) ) {
+		if ( parent->inheritsFrom(QualifiedTypename()) || parent->mIsPreparing ) {
 			throw Exceptions::DesigntimeException("Circular inheritance detected for type '" + QualifiedTypename() + "'!");
 		}
 
@@ -383,6 +387,7 @@ void BluePrintObject::prepareParents(Repository* repository)
 	}
 
 	mIsPrepared = true;
+	mIsPreparing = false;
 }
 
 MethodScope::MethodCollection BluePrintObject::provideMethods() const
diff --git a/Projects/Core/Core/Designtime/BluePrintObject.h b/Projects/Core/Core/Designtime/BluePrintObject.h
index cb73caa..2945e76 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.h
+++ b/Projects/Core/Core/Designtime/BluePrintObject.h
@@ -112,6 +112,7 @@ private:
 	std::string mFilename;
 	Ancestors mInheritance;
 	bool mIsPrepared;
+	bool mIsPreparing;
 	bool mIsReference;
 	PrototypeConstraints mPrototypeConstraints;
 	std::string mQualifiedTypename;
-- 
2.43.0


From f7b156b94643a384bb6434979850e65c78a8c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:50 +0000
Subject: [PATCH 068/154] fix: bounds of enumeration declarations

---
 Projects/Core/Core/Designtime/Analyser.cpp | 25 +++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index 4b448d0..9b9a605 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -4,6 +4,7 @@
 
 // Library includes
 #include <fstream>
+#include <limits>
 
 // Project includes
 #include <Core/Common/Exceptions.h>
@@ -48,20 +49,24 @@ bool Analyser::buildEnum(BluePrintObject* symbol, const TokenList& tokens)
 
 		auto name = (token++)->content();
 
-		if ( token->type() == Token::Type::ASSIGN ) {
-			expect(Token::Type::ASSIGN, token);
-			++token;
+		if ( token != tokens.end() && token->type() == Token::Type::ASSIGN ) {
+			if ( ++token == tokens.end() ) {
+				throw Exceptions::SyntaxError("enum value expected but none found!", tokens.back().position());
+			}
 
 			expect(Token::Type::CONST_INTEGER, token);
 			value = (token++)->content();
 		}
+		else if ( value.toInt() == std::numeric_limits<int>::max() ) {
+			throw Exceptions::SyntaxError("enum value exceeds the range of int", tokens.back().position());
+		}
 		else {
 			value = value.toInt() + 1;
 		}
 
 		// verify declaration order (this also prevents duplicate values)
 		if ( previous_value.toInt() >= value.toInt() ) {
-			throw Exceptions::SyntaxError("enum values have to be defined in ascending order", token->position());
+			throw Exceptions::SyntaxError("enum values have to be defined in ascending order", tokens.back().position());
 		}
 
 		previous_value = value;
@@ -79,23 +84,23 @@ bool Analyser::buildEnum(BluePrintObject* symbol, const TokenList& tokens)
 		entry->setParent(symbol);
 		symbol->define(name, entry);
 
-		if ( token->type() == Token::Type::COMMA ) {
+		if ( token == tokens.end() || token->type() == Token::Type::SEMICOLON ) {
+			// omitting the semicolon as last token is also allowed
+			return true;
+		}
+		else if ( token->type() == Token::Type::COMMA ) {
 			if ( lookahead(token) == tokens.end() ) {
 				throw Exceptions::SyntaxError("new enum value expected but none found!", token->position());
 			}
 
 			++token;
 		}
-		else if ( token->type() == Token::Type::SEMICOLON || token == tokens.end() ) {
-			// omitting the semicolon as last token is also allowed
-			return true;
-		}
 		else {
 			throw Exceptions::SyntaxError("unexpected token '" + token->content() + "' found", token->position());
 		}
 	}
 
-	throw Exceptions::SyntaxError("invalid enum declaration", token->position());
+	throw Exceptions::SyntaxError("invalid enum declaration of '" + symbol->QualifiedTypename() + "'");
 }
 
 Ancestors Analyser::collectInheritance(TokenIterator& token)
-- 
2.43.0


From aef1347b89e086e3b41856a15a1fe669ca013967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:36:50 +0000
Subject: [PATCH 069/154] fix: access types declared inside of the own class

---
 Projects/Core/Core/Object.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 0577362..186a2ab 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -519,7 +519,15 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 		}
 	}
 
-	// (3) if we still haven't found something also look in other scopes
+	// (3) look for types that are declared inside of our own type
+	if ( !result && !onlyCurrentScope && mBluePrint ) {
+		auto* type = dynamic_cast<Designtime::BluePrintObject*>(mBluePrint->resolve(name, true, visibility));
+		if ( type && !type->isMember() ) {
+			result = type;
+		}
+	}
+
+	// (4) if we still haven't found something also look in other scopes
 	if ( !result && !onlyCurrentScope && !isPlaceholder() ) {
 		result = MethodScope::resolve(name, false, visibility);
 	}
-- 
2.43.0


From eb0d2c7813b2b2f299655def0b2d79bb52932020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:54 +0000
Subject: [PATCH 070/154] fix: qualified names as arguments of generic types

---
 .../Core/Core/Designtime/Parser/Parser.cpp    | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Parser.cpp b/Projects/Core/Core/Designtime/Parser/Parser.cpp
index 3afc486..fa16744 100644
--- a/Projects/Core/Core/Designtime/Parser/Parser.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Parser.cpp
@@ -222,11 +222,25 @@ PrototypeConstraints Parser::collectDesigntimePrototypeConstraints(TokenIterator
 	unsigned int index = 0;
 
 	while ( token->type() != Token::Type::COMPARE_GREATER ) {
+		if ( token->type() != Token::Type::IDENTIFIER ) {
+			throw Exceptions::SyntaxError("unexpected token '" + token->content() + "' found", token->position());
+		}
+
 		auto designType = token->content();
-		auto runType    = token->content();	// hack to prevent runtime type to be empty
 
 		++token;
 
+		while ( token->type() == Token::Type::OPERATOR_SCOPE ) {	// qualified type name
+			++token;
+			expect(Token::Type::IDENTIFIER, token);
+
+			designType += RESERVED_WORD_SCOPE_OPERATOR + token->content();
+
+			++token;
+		}
+
+		auto runType = designType;	// hack to prevent runtime type to be empty
+
 		if ( token->type() == Token::Type::COLON ) {	// constraint
 			++token;
 
@@ -275,10 +289,23 @@ PrototypeConstraints Parser::collectRuntimePrototypeConstraints(TokenIterator& t
 	unsigned int index = 0;
 
 	while ( token->type() != Token::Type::COMPARE_GREATER ) {
+		if ( token->type() != Token::Type::IDENTIFIER ) {
+			throw Exceptions::SyntaxError("unexpected token '" + token->content() + "' found", token->position());
+		}
+
 		auto runType = token->content();
 
 		++token;
 
+		while ( token->type() == Token::Type::OPERATOR_SCOPE ) {	// qualified type name
+			++token;
+			expect(Token::Type::IDENTIFIER, token);
+
+			runType += RESERVED_WORD_SCOPE_OPERATOR + token->content();
+
+			++token;
+		}
+
 		if ( token->type() == Token::Type::COLON ) {	// constraint
 			++token;
 		}
-- 
2.43.0


From ca685a29fb79929b4005521143bb33e590781da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:43 +0000
Subject: [PATCH 071/154] fix: execute inherited constructors in the scope of
 their own class

---
 Projects/Core/Core/Object.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 186a2ab..e2594cb 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -184,7 +184,10 @@ ControlFlow::E Object::Constructor(const ParameterList& params)
 	if ( constructor ) {
 		VoidType tmp;
 
-		controlflow = Controller::Instance().thread(0)->execute(mThis, constructor, params, &tmp);
+		// an inherited constructor has to be executed in the scope of the type that declares it
+		auto* owner = dynamic_cast<Object*>(constructor->getEnclosingScope());
+
+		controlflow = Controller::Instance().thread(0)->execute(owner ? owner : mThis, constructor, params, &tmp);
 
 		if ( controlflow != ControlFlow::Normal ) {
 			return controlflow;
-- 
2.43.0


From f3aff0c4fe467ac5c6d66bcb6db3b94ad77d9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:41:14 +0000
Subject: [PATCH 072/154] fix: arguments of generic types relative to the
 current namespace

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 30 +++++++++++++++++++++++-
 Projects/Core/Core/AST/TreeGenerator.h   |  1 +
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index d8adcd7..aa626d3 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2348,6 +2348,34 @@ void TreeGenerator::pushTokens(const TokenList& tokens)
 	mStackFrame->pushTokens(tokens);
 }
 
+/*
+ * replaces type names that are relative to our current scope by their qualified names
+ */
+PrototypeConstraints TreeGenerator::resolveConstraints(PrototypeConstraints constraints) const
+{
+	for ( auto& constraint : constraints ) {
+		IScope* scope = getScope();
+		Symbol* symbol = nullptr;
+
+		std::string remaining = constraint.mRunType;
+
+		while ( scope && !remaining.empty() ) {
+			std::string name;
+			Utils::Tools::splitBy(remaining, RESERVED_WORD_SCOPE_OPERATOR[0], name, remaining);
+
+			symbol = scope->resolve(name, scope != getScope(), Visibility::Private);
+			scope = dynamic_cast<IScope*>(symbol);
+		}
+
+		auto* type = dynamic_cast<Designtime::BluePrintObject*>(symbol);
+		if ( type && !type->isMember() && type->getName() != type->QualifiedTypename() ) {
+			constraint.mRunType = type->QualifiedTypename();
+		}
+	}
+
+	return constraints;
+}
+
 SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, bool onlyCurrentScope, Visibility::E visibility) const
 {
 	if ( !base ) {
@@ -2382,7 +2410,7 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 			PrototypeConstraints constraints;
 			if ( blueprint->isPrototype() ) {
 				constraints = blueprint->getPrototypeConstraints().buildRawConstraints(
-					Designtime::Parser::collectRuntimePrototypeConstraints(token)
+					resolveConstraints(Designtime::Parser::collectRuntimePrototypeConstraints(token))
 				);
 			}
 
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index 1951746..7920f1b 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -137,6 +137,7 @@ private: // Execution
 	// }
 
 	SymbolExpression* resolve(TokenIterator& token, IScope* base, bool onlyCurrentScope, Visibility::E visibility) const;
+	PrototypeConstraints resolveConstraints(PrototypeConstraints constraints) const;
 	SymbolExpression* resolveWithExceptions(TokenIterator& token, IScope* base) const;
 	SymbolExpression* resolveWithThis(TokenIterator& token, IScope* base) const;
 	static MethodSymbol* resolveMethod(const SymbolExpression* symbol, const ParameterList& params, Visibility::E visibility);
-- 
2.43.0


From 7169b263c77f816c55f70668dcf73a5612e6efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:21 +0000
Subject: [PATCH 073/154] fix: types declared inside of a class hide global
 types of the same name

---
 Projects/Core/Core/Object.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index e2594cb..8b2db48 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -514,15 +514,7 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 	// (1) look only in current scope
 	Symbol *result = MethodScope::resolve(name, true, visibility);
 
-	// (2) check inheritance
-	if ( !result ) {
-		auto* base = dynamic_cast<Object*>(MethodScope::resolve("base", true, Visibility::Designtime));
-		if ( base && base->getSymbolType() == Symbol::IType::ObjectSymbol && !onlyCurrentScope ) {
-			result = base->resolve(name, onlyCurrentScope, visibility < Visibility::Protected ? Visibility::Protected : visibility);
-		}
-	}
-
-	// (3) look for types that are declared inside of our own type
+	// (2) look for types that are declared inside of our own type
 	if ( !result && !onlyCurrentScope && mBluePrint ) {
 		auto* type = dynamic_cast<Designtime::BluePrintObject*>(mBluePrint->resolve(name, true, visibility));
 		if ( type && !type->isMember() ) {
@@ -530,6 +522,14 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 		}
 	}
 
+	// (3) check inheritance
+	if ( !result ) {
+		auto* base = dynamic_cast<Object*>(MethodScope::resolve("base", true, Visibility::Designtime));
+		if ( base && base->getSymbolType() == Symbol::IType::ObjectSymbol && !onlyCurrentScope ) {
+			result = base->resolve(name, onlyCurrentScope, visibility < Visibility::Protected ? Visibility::Protected : visibility);
+		}
+	}
+
 	// (4) if we still haven't found something also look in other scopes
 	if ( !result && !onlyCurrentScope && !isPlaceholder() ) {
 		result = MethodScope::resolve(name, false, visibility);
-- 
2.43.0


From 39bd6d480dac17d812d3d876f8be0e6044d13052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:47 +0000
Subject: [PATCH 074/154] fix: imported files may import the main script

---
 Projects/Core/Core/VirtualMachine/VirtualMachine.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
index 81170f2..de10bf4 100644
--- a/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
+++ b/Projects/Core/Core/VirtualMachine/VirtualMachine.cpp
@@ -230,6 +230,9 @@ Script* VirtualMachine::createScriptFromFile(const std::string& filename)
 	addLibraryFolder(Utils::Tools::Files::ExtractPathname(Utils::Tools::Files::GetFullname(filename)));
 	mScriptFile = Utils::Tools::Files::GetFullname(filename);
 
+	// imported files may import the script itself
+	mImportedLibraries.insert( mScriptFile );
+
 	return createScript(content);
 }
 
-- 
2.43.0


From da5d3e97263d582ad0e204b4555bdc6a0bb3b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:43 +0000
Subject: [PATCH 075/154] fix: classes with the same name as a class of an
 enclosing namespace

---
 Projects/Core/Core/Designtime/Analyser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index 9b9a605..1dc33e1 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -138,7 +138,11 @@ bool Analyser::createBluePrint(TokenIterator& token)
 		throw Exceptions::SyntaxError("object expected", token->position());
 	}
 	// look for the type declaration
+	const std::string name = token->content();
 	Common::TypeDeclaration type = parseTypeDeclaration(token, mScope);
+	// this is a new type, even if there is one with the same name in an enclosing scope
+	type.mName = name;
+	type.mCombinedName = name;
 	// collect inheritance (if present)
 	Ancestors inheritance = collectInheritance(token);
 
-- 
2.43.0


From aab38cfc1303b426886fd9e0a4c392419969fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:27 +0000
Subject: [PATCH 076/154] fix: look up names used by base classes in their own
 namespace

---
 Projects/Core/Core/VirtualMachine/Repository.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 7de6afa..9dc9ad4 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -290,7 +290,13 @@ Runtime::Object* Repository::createUserType(const std::string& name, Designtime:
 					case Designtime::Ancestor::Type::Extends: {
 						// create base object
 						auto* ancestor = createReference(blueIt->second, IDENTIFIER_THIS, ancestorIt.constraints(), InitilizationType::AllowAbstract);
-						ancestor->setParent(blueprint->getEnclosingScope());
+						if ( blueIt->second->getEnclosingScope() ) {
+							// names used by our base object are looked up in its own scope
+							ancestor->setParent(blueIt->second->getEnclosingScope());
+						}
+						else {
+							ancestor->setParent(blueprint->getEnclosingScope());
+						}
 
 						// define new base
 						object->define(IDENTIFIER_BASE, ancestor);
-- 
2.43.0


From 5a893f0153289ad0b8c6a366fa435972d17b9ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:11 +0000
Subject: [PATCH 077/154] fix: scopes enclosing a base class do not hide names

---
 Projects/Core/Core/Object.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index 8b2db48..d33c9a0 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -515,7 +515,7 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 	Symbol *result = MethodScope::resolve(name, true, visibility);
 
 	// (2) look for types that are declared inside of our own type
-	if ( !result && !onlyCurrentScope && mBluePrint ) {
+	if ( !result && mBluePrint ) {
 		auto* type = dynamic_cast<Designtime::BluePrintObject*>(mBluePrint->resolve(name, true, visibility));
 		if ( type && !type->isMember() ) {
 			result = type;
@@ -526,7 +526,8 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 	if ( !result ) {
 		auto* base = dynamic_cast<Object*>(MethodScope::resolve("base", true, Visibility::Designtime));
 		if ( base && base->getSymbolType() == Symbol::IType::ObjectSymbol && !onlyCurrentScope ) {
-			result = base->resolve(name, onlyCurrentScope, visibility < Visibility::Protected ? Visibility::Protected : visibility);
+			// our base's enclosing scopes are none of our business
+			result = base->resolve(name, true, visibility < Visibility::Protected ? Visibility::Protected : visibility);
 		}
 	}
 
-- 
2.43.0


From 3a8f85c632ee9f65f723c62563a837047779988d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:59 +0000
Subject: [PATCH 078/154] fix: release objects held by static members before
 the global scope is deleted

---
 Projects/Core/Core/VirtualMachine/Controller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/Controller.cpp b/Projects/Core/Core/VirtualMachine/Controller.cpp
index 9dfc732..fdba603 100644
--- a/Projects/Core/Core/VirtualMachine/Controller.cpp
+++ b/Projects/Core/Core/VirtualMachine/Controller.cpp
@@ -7,6 +7,7 @@
 
 // Project includes
 #include <Core/Common/Namespace.h>
+#include <Core/Designtime/BluePrintObject.h>
 #include <Core/Object.h>
 
 // Namespace declarations
@@ -114,6 +115,9 @@ void Controller::releaseReferences(MethodScope* scope) const
 
 	for ( const auto& symbol : symbols ) {
 		switch ( symbol.second->getSymbolType() ) {
+			case Symbol::IType::BluePrintObjectSymbol:
+				releaseReferences(dynamic_cast<Designtime::BluePrintObject*>(symbol.second));
+				break;
 			case Symbol::IType::NamespaceSymbol:
 				releaseReferences(dynamic_cast<Common::Namespace*>(symbol.second));
 				break;
-- 
2.43.0


From 0bee4ed13a29c6971362ca0bea7d258e712858c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:51 +0000
Subject: [PATCH 079/154] fix: global variables may be declared before their
 class

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index aa626d3..ec3b801 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2440,6 +2440,11 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 			scope = object->isAtomicType() ? nullptr : object->getBluePrint();
 			type = object->QualifiedTypename();
 
+			if ( !scope && !object->isAtomicType() ) {
+				// the type of our object has been declared after the object
+				scope = mRepository->findBluePrintObject(type);
+			}
+
 			symbol = new RuntimeSymbolExpression(name, type, object->isConst(), object->isMember(), object->isAtomicType());
 		} break;
 		case Symbol::IType::MethodSymbol: {
-- 
2.43.0


From c317e66a7d742b5ee0224422415cef122a0b8b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:19 +0000
Subject: [PATCH 080/154] fix: static members are accessible through objects

---
 Projects/Core/Core/Object.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index d33c9a0..ecfe090 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -514,11 +514,13 @@ Symbol* Object::resolve(const std::string& name, bool onlyCurrentScope, Visibili
 	// (1) look only in current scope
 	Symbol *result = MethodScope::resolve(name, true, visibility);
 
-	// (2) look for types that are declared inside of our own type
+	// (2) look for types that are declared inside of our own type and for static members
 	if ( !result && mBluePrint ) {
-		auto* type = dynamic_cast<Designtime::BluePrintObject*>(mBluePrint->resolve(name, true, visibility));
-		if ( type && !type->isMember() ) {
-			result = type;
+		Symbol* symbol = mBluePrint->resolve(name, true, visibility);
+
+		auto* type = dynamic_cast<Designtime::BluePrintObject*>(symbol);
+		if ( (type && !type->isMember()) || dynamic_cast<Object*>(symbol) ) {
+			result = symbol;
 		}
 	}
 
-- 
2.43.0


From c970e440851d52a2e1abfe94f7c684467b3d19de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:19 +0000
Subject: [PATCH 081/154] fix: local variables hide members, static methods
 access static members by name

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 34 +++++++++++++++++++++++-
 Projects/Core/Core/AST/TreeGenerator.h   |  3 +++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index ec3b801..9ee1085 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2568,9 +2568,41 @@ SymbolExpression* TreeGenerator::resolveWithExceptions(TokenIterator& token, ISc
     return exp;
 }
 
+/*
+ * local variables and parameters hide the members of our class
+ */
+bool TreeGenerator::isLocalVariable(const TokenIterator& token, IScope* scope) const
+{
+	if ( lookahead(token)->type() == Token::Type::PARENTHESIS_OPEN ) {
+		// this is a method call
+		return false;
+	}
+
+	for ( ; scope; scope = scope->getEnclosingScope() ) {
+		Symbol* symbol = scope->resolve(token->content(), true, Visibility::Private);
+		if ( symbol ) {
+			return symbol->getSymbolType() == Symbol::IType::ObjectSymbol;
+		}
+
+		if ( scope == mMethod ) {
+			break;
+		}
+	}
+
+	return false;
+}
+
+/*
+ * static members are accessible without an object
+ */
+bool TreeGenerator::isStaticMember(const TokenIterator& token) const
+{
+	return mMethod->isStatic() && dynamic_cast<Runtime::Object*>(mThis->resolve(token->content(), true, Visibility::Private));
+}
+
 SymbolExpression* TreeGenerator::resolveWithThis(TokenIterator& token, IScope* base) const
 {
-    if ( mThis ) {
+    if ( mThis && !isLocalVariable(token, base) && !isStaticMember(token) ) {
         // every class-method has a "this" local that points to the object's blueprint
         // resolve symbol by using the "this" identifier (without exceptions so that we can try to resolve another time)
         SymbolExpression* exp = resolve(token, mThis, true, Visibility::Private);
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index 7920f1b..55ea609 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -136,6 +136,9 @@ private: // Execution
 	Node* processTernaryOperator(TokenIterator& start, Node* baseExp);
 	// }
 
+	bool isLocalVariable(const TokenIterator& token, IScope* scope) const;
+	bool isStaticMember(const TokenIterator& token) const;
+
 	SymbolExpression* resolve(TokenIterator& token, IScope* base, bool onlyCurrentScope, Visibility::E visibility) const;
 	PrototypeConstraints resolveConstraints(PrototypeConstraints constraints) const;
 	SymbolExpression* resolveWithExceptions(TokenIterator& token, IScope* base) const;
-- 
2.43.0


From b7e6b3f839f887dc5f3ec846af299b944dfb67fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:27 +0000
Subject: [PATCH 082/154] fix: provide the remainder function for doubles

---
 Projects/Extensions/LIBC/math/math.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Projects/Extensions/LIBC/math/math.cpp b/Projects/Extensions/LIBC/math/math.cpp
index ff5cf2e..05e1873 100644
--- a/Projects/Extensions/LIBC/math/math.cpp
+++ b/Projects/Extensions/LIBC/math/math.cpp
@@ -173,6 +173,7 @@ void math_t::provideMethods( ExtensionMethods& methods )
     methods.push_back( new POW() );
     methods.push_back( new POWF() );
     methods.push_back( new POWL() );
+    methods.push_back( new REMAINDER() );
     methods.push_back( new REMAINDERF() );
     methods.push_back( new RINT() );
     methods.push_back( new RINTF() );
-- 
2.43.0


From bf1160ea86e2bc67b20a142567858d5cfcf12cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:27 +0000
Subject: [PATCH 083/154] fix: the power of zero is one

---
 Projects/Library/System/Math/Functions.os | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Projects/Library/System/Math/Functions.os b/Projects/Library/System/Math/Functions.os
index 7028f74..ec9ecf0 100644
--- a/Projects/Library/System/Math/Functions.os
+++ b/Projects/Library/System/Math/Functions.os
@@ -9,9 +9,9 @@ public namespace Math {
 	}
 
 	public double power(double value, int exp) {
-		double result = value;
+		double result = 1.0d;
 
-		while ( exp > 1 ) {
+		while ( exp > 0 ) {
 			result *= value;
 			exp -= 1;
 		}
@@ -24,9 +24,9 @@ public namespace Math {
 	}
 
 	public float power(float value, int exp) {
-		float result = value;
+		float result = 1.0f;
 
-		while ( exp > 1 ) {
+		while ( exp > 0 ) {
 			result *= value;
 			exp -= 1;
 		}
@@ -39,9 +39,9 @@ public namespace Math {
 	}
 
 	public int power(int value, int exp) {
-		int result = value;
+		int result = 1;
 
-		while ( exp > 1 ) {
+		while ( exp > 0 ) {
 			result *= value;
 			exp -= 1;
 		}
-- 
2.43.0


From 440d783d4a3c3a3df17b64e0006a4aad387a788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:35 +0000
Subject: [PATCH 084/154] fix: string interpolation only replaces placeholders
 and does this once

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index d147d06..b09b5df 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -442,8 +442,8 @@ void TreeInterpreter::evaluateStringEvalExpression( StringEvalExpression *exp, R
 	std::string sourceStr{ tmp.getValue().toStdString() };
 	size_t start{ 0 };
 
-	while ( ( start = sourceStr.find_first_of( VARPREFIX, start ) ) != std::string::npos ) {
-		auto end = sourceStr.find_first_of( VARPOSTFIX, start );
+	while ( ( start = sourceStr.find( VARPREFIX, start ) ) != std::string::npos ) {
+		auto end = sourceStr.find( VARPOSTFIX, start + PREFIXLEN );
 		if ( end == std::string::npos ) {
 			start += PREFIXLEN;
 			break;
@@ -471,7 +471,10 @@ void TreeInterpreter::evaluateStringEvalExpression( StringEvalExpression *exp, R
 
 		auto* tmpSym = dynamic_cast<Runtime::Object*>(symbol);
 
-		sourceStr.replace( start, end - start, tmpSym->getValue().toStdString() );
+		const auto value = tmpSym->getValue().toStdString();
+
+		sourceStr.replace( start, end - start, value );
+		start += value.size();	// the inserted text is no template
 	}
 
 	Runtime::StringType type( sourceStr );
-- 
2.43.0


From a69c82a29c84a1d6b301232b085c10799e842b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:52 +0000
Subject: [PATCH 085/154] fix: file functions reject closed and invalid handles

---
 Projects/Extensions/LIBC/stdio/fclose.h  | 1 +
 Projects/Extensions/LIBC/stdio/fflush.h  | 4 ++--
 Projects/Extensions/LIBC/stdio/fopen.h   | 2 +-
 Projects/Extensions/LIBC/stdio/stdio.cpp | 4 +++-
 Projects/Extensions/LIBC/stdio/stdio.hpp | 1 +
 Projects/Extensions/LIBC/stdio/tmpfile.h | 2 +-
 6 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/fclose.h b/Projects/Extensions/LIBC/stdio/fclose.h
index 0395365..af248f9 100644
--- a/Projects/Extensions/LIBC/stdio/fclose.h
+++ b/Projects/Extensions/LIBC/stdio/fclose.h
@@ -47,6 +47,7 @@ public:
 		}
 
 		int fileResult = fclose(stdio_t::FileHandles[param_handle]);
+		stdio_t::FileHandles.erase(param_handle);
 		if ( fileResult == -1 ) {
 			throw Runtime::Exceptions::RuntimeException("invalid file handle");
 		}
diff --git a/Projects/Extensions/LIBC/stdio/fflush.h b/Projects/Extensions/LIBC/stdio/fflush.h
index 996612e..4718fd9 100644
--- a/Projects/Extensions/LIBC/stdio/fflush.h
+++ b/Projects/Extensions/LIBC/stdio/fflush.h
@@ -45,11 +45,11 @@ public:
 
 		auto param_handle = (*it++).value().toInt();
 
-		if ( stdio_t::FileHandles.find(param_handle) == stdio_t::FileHandles.end() ) {
+		if ( param_handle != 0 && stdio_t::FileHandles.find(param_handle) == stdio_t::FileHandles.end() ) {
 			throw Runtime::Exceptions::RuntimeException("invalid file handle");
 		}
 
-		auto value = fflush( stdio_t::FileHandles[ param_handle ] );
+		auto value = fflush( param_handle != 0 ? stdio_t::FileHandles[ param_handle ] : nullptr );
 
 		*result = Runtime::Int32Type( value );
 
diff --git a/Projects/Extensions/LIBC/stdio/fopen.h b/Projects/Extensions/LIBC/stdio/fopen.h
index e83874d..654f08a 100644
--- a/Projects/Extensions/LIBC/stdio/fopen.h
+++ b/Projects/Extensions/LIBC/stdio/fopen.h
@@ -49,7 +49,7 @@ public:
 
 		FILE* fileHandle = fopen(param_filename.c_str(), param_accessmode.c_str());
 		if ( fileHandle ) {
-			result_handle = stdio_t::FileHandles.size();
+			result_handle = stdio_t::NextHandle++;
 
 			stdio_t::FileHandles.insert(std::make_pair(result_handle, fileHandle));
 		}
diff --git a/Projects/Extensions/LIBC/stdio/stdio.cpp b/Projects/Extensions/LIBC/stdio/stdio.cpp
index 7e8210e..1e6a1b2 100644
--- a/Projects/Extensions/LIBC/stdio/stdio.cpp
+++ b/Projects/Extensions/LIBC/stdio/stdio.cpp
@@ -41,6 +41,7 @@ namespace stdio {
 
 
 stdio_t::FileHandles_t stdio_t::FileHandles;
+int stdio_t::NextHandle{ 0 };
 
 constexpr int32_t STDIN  = 1;
 constexpr int32_t STDOUT = 2;
@@ -69,10 +70,11 @@ void stdio_t::initialize( ExtensionNamespace* scope )
 	scope->define( "SEEK_END", new Runtime::Int32Type( "SEEK_END", SEEK_END ) );
 
 	// nothing to do here
-	FileHandles[ 0 ]      = nullptr;
 	FileHandles[ STDIN ]  = stdin;
 	FileHandles[ STDOUT ] = stdout;
 	FileHandles[ STDERR ] = stderr;
+
+	NextHandle = STDERR + 1;
 }
 
 void stdio_t::provideMethods( ExtensionMethods& methods )
diff --git a/Projects/Extensions/LIBC/stdio/stdio.hpp b/Projects/Extensions/LIBC/stdio/stdio.hpp
index 32ef80e..9c853a2 100644
--- a/Projects/Extensions/LIBC/stdio/stdio.hpp
+++ b/Projects/Extensions/LIBC/stdio/stdio.hpp
@@ -60,6 +60,7 @@ public:
     typedef std::map<int /*file handle*/, FILE*> FileHandles_t;
 
     static FileHandles_t FileHandles;
+    static int NextHandle;	// handles are never used again, so that a closed handle stays invalid
 
 public:
 	stdio_t();
diff --git a/Projects/Extensions/LIBC/stdio/tmpfile.h b/Projects/Extensions/LIBC/stdio/tmpfile.h
index a4c112c..af89b02 100644
--- a/Projects/Extensions/LIBC/stdio/tmpfile.h
+++ b/Projects/Extensions/LIBC/stdio/tmpfile.h
@@ -49,7 +49,7 @@ public:
 
 		FILE* fileHandle = tmpfile();
 		if ( fileHandle ) {
-			result_handle = stdio_t::FileHandles.size();
+			result_handle = stdio_t::NextHandle++;
 
 			stdio_t::FileHandles.insert(std::make_pair(result_handle, fileHandle));
 		}
-- 
2.43.0


From c5692df62974e6366c8d5270b679e2181b4c6d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:52 +0000
Subject: [PATCH 086/154] fix: fgets returns lines longer than its buffer

---
 Projects/Extensions/LIBC/stdio/fgets.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Projects/Extensions/LIBC/stdio/fgets.h b/Projects/Extensions/LIBC/stdio/fgets.h
index 8b963a2..46649d5 100644
--- a/Projects/Extensions/LIBC/stdio/fgets.h
+++ b/Projects/Extensions/LIBC/stdio/fgets.h
@@ -53,21 +53,23 @@ public:
 			throw Runtime::Exceptions::RuntimeException( "invalid file handle" );
 		}
 
-		int32_t remainingSize{0};
-		while ( remainingSize < param_size ) {
-			auto readSize = param_size - remainingSize;
+		std::string line;
+		while ( static_cast<int64_t>( line.size() ) + 1 < param_size && ( line.empty() || line.back() != '\n' ) ) {
+			auto readSize = param_size - static_cast<int64_t>( line.size() );
 			if ( readSize > READ_SIZE ) {
 				readSize = READ_SIZE;
 			}
 
 			char stream[READ_SIZE];
-			if ( fgets( stream, readSize, stdio_t::FileHandles[ param_handle ] ) != nullptr ) {
-				*result = Runtime::StringType( std::string( stream ) );
+			if ( fgets( stream, static_cast<int>( readSize ), stdio_t::FileHandles[ param_handle ] ) == nullptr ) {
+				break;
 			}
 
-			remainingSize += readSize;
+			line += stream;
 		}
 
+		*result = Runtime::StringType( line );
+
 		return Runtime::ControlFlow::Normal;
 	}
 };
-- 
2.43.0


From 49c7c8cb5f29e8161ea8381159e349fe2fff4caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:52 +0000
Subject: [PATCH 087/154] fix: opening a missing file reports failure

---
 Projects/Library/System/IO/File.os | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/System/IO/File.os b/Projects/Library/System/IO/File.os
index e5c8088..da2ee7a 100644
--- a/Projects/Library/System/IO/File.os
+++ b/Projects/Library/System/IO/File.os
@@ -94,11 +94,15 @@ public namespace System.IO {
 			mFilename   = filename;
 			mHandle     = fopen( mFilename, mAccessMode );
 
+			if ( !mHandle ) {
+				return false;
+			}
+
 			fseek( mHandle, 0, SEEK_END );
 			mSize = ftell( mHandle );
 			fseek( mHandle, 0, SEEK_SET );
 
-			return mHandle != 0;
+			return true;
 		}
 
 		public bool readBool() const {
-- 
2.43.0


From 6789e1218e2e6a5f31329717402bf3d575b21200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:52 +0000
Subject: [PATCH 088/154] fix: report successful writes to a file

---
 Projects/Library/System/IO/File.os | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Projects/Library/System/IO/File.os b/Projects/Library/System/IO/File.os
index da2ee7a..3ea1168 100644
--- a/Projects/Library/System/IO/File.os
+++ b/Projects/Library/System/IO/File.os
@@ -138,23 +138,23 @@ public namespace System.IO {
 		}
 
 		public bool write( bool value ) {
-			return fwriteb( mHandle, value ) == 0;
+			return fwriteb( mHandle, value ) > 0;
 		}
 
 		public bool write( double value ) {
-			return fwrited( mHandle, value ) == 0;
+			return fwrited( mHandle, value ) > 0;
 		}
 
 		public bool write( float value ) {
-			return fwritef( mHandle, value ) == 0;
+			return fwritef( mHandle, value ) > 0;
 		}
 
 		public bool write( int value ) {
-			return fwritei( mHandle, value ) == 0;
+			return fwritei( mHandle, value ) > 0;
 		}
 
 		public bool write( string value ) {
-			return fwrites( mHandle, value ) == 0;
+			return fwrites( mHandle, value ) > 0;
 		}
 
 		private string mAccessMode;
-- 
2.43.0


From 220620d13635986e534ac8028f1b202edcb1755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:22 +0000
Subject: [PATCH 089/154] fix: read the last line of a delimited file that is
 not terminated

---
 Projects/Library/libCSVReader/CSVReader.os | 29 ++++++++++++++--------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/Projects/Library/libCSVReader/CSVReader.os b/Projects/Library/libCSVReader/CSVReader.os
index d13ce1e..d056472 100644
--- a/Projects/Library/libCSVReader/CSVReader.os
+++ b/Projects/Library/libCSVReader/CSVReader.os
@@ -72,17 +72,8 @@ public object CSVReader implements ICollection, IIterable {
         string line;
         while ( charIt.hasNext() ) {
             if ( ( char = charIt.next() ) == LINEBREAK ) {
-                {   // parse row
-                    var row = new Row();
-
-                    var columnIt = new StringIterator( line, Settings.SEPARATOR );
-                    while ( columnIt.hasNext() ) {
-                        row.push_back( columnIt.next() );
-                    }
-                    line = "";
-
-                    mData.push_back( row );
-                }
+                parseRow( line );
+                line = "";
 
                 if ( headerOnly ) {
                     break;
@@ -94,9 +85,25 @@ public object CSVReader implements ICollection, IIterable {
             line += char;
         }
 
+        if ( line != "" ) {
+            // the last line is not terminated
+            parseRow( line );
+        }
+
         return true;
     }
 
+    private void parseRow( string line ) modify {
+        var row = new Row();
+
+        var columnIt = new StringIterator( line, Settings.SEPARATOR );
+        while ( columnIt.hasNext() ) {
+            row.push_back( columnIt.next() );
+        }
+
+        mData.push_back( row );
+    }
+
     private bool mColumnTitles;
     private Vector<Row> mData;
     private string mFilename;
-- 
2.43.0


From 44d124c73cd61b9d9870e66952acf813c33308b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:04 +0000
Subject: [PATCH 090/154] fix: variables put into the environment keep their
 value

---
 Projects/Extensions/System/PutEnv.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Extensions/System/PutEnv.h b/Projects/Extensions/System/PutEnv.h
index 460accd..bc9974c 100644
--- a/Projects/Extensions/System/PutEnv.h
+++ b/Projects/Extensions/System/PutEnv.h
@@ -5,6 +5,7 @@
 
 // Library includes
 #include <cstdlib>
+#include <cstring>
 
 // Project includes
 #include <Core/Designtime/BuildInTypes/StringType.h>
@@ -41,7 +42,7 @@ public:
 
 		std::string param_name = (*it++).value().toStdString();
 
-		*result = Runtime::Int32Type(putenv(const_cast<char*>(param_name.c_str())));
+		*result = Runtime::Int32Type(putenv(strdup(param_name.c_str())));
 
 		return Runtime::ControlFlow::Normal;
 	}
-- 
2.43.0


From 5945b12157e3123a15a40ddce1c9a24527956f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:04 +0000
Subject: [PATCH 091/154] fix: parse local times with daylight saving time

---
 Projects/Extensions/System/Strings/StrPTime.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Projects/Extensions/System/Strings/StrPTime.h b/Projects/Extensions/System/Strings/StrPTime.h
index 561188d..2173b4d 100644
--- a/Projects/Extensions/System/Strings/StrPTime.h
+++ b/Projects/Extensions/System/Strings/StrPTime.h
@@ -46,6 +46,7 @@ public:
 		std::string param_time = (*it++).value().toStdString();
 
 		tm tm{};
+		tm.tm_isdst = -1;	// let mktime decide whether daylight saving time is in effect
 
 		if ( strptime(param_time.c_str(), param_format.c_str(), &tm ) ) {
 			auto time = mktime( &tm );
-- 
2.43.0


From e515ec3b576c876677eb16c8018b17b33b741390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:17 +0000
Subject: [PATCH 092/154] fix: foreach accepts collections that inherit their
 iterator

---
 Projects/Core/Core/Designtime/BluePrintObject.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index 36e3947..ee27e6b 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -280,13 +280,8 @@ bool BluePrintObject::isIterable() const
 		return true;
 	}
 
-	for ( auto& mMethod : mMethods ) {
-		if ( mMethod->getName() == "getIterator" && mMethod->isSignatureValid( ParameterList() ) ) {
-			return true;
-		}
-	}
-
-	return false;
+	// the method may also be inherited
+	return resolveMethod( "getIterator", ParameterList(), false, Visibility::Public ) != nullptr;
 }
 
 bool BluePrintObject::isOfType(const std::string& type) const
-- 
2.43.0


From 2603ff7e21d5939e43fa8429c43e14b7c8bd0965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:41 +0000
Subject: [PATCH 093/154] fix: versions with different labels are ordered by
 label

---
 Projects/Utils/SemVer/Version.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Utils/SemVer/Version.cpp b/Projects/Utils/SemVer/Version.cpp
index ddc98d4..310070a 100644
--- a/Projects/Utils/SemVer/Version.cpp
+++ b/Projects/Utils/SemVer/Version.cpp
@@ -69,6 +69,10 @@ bool SemanticVersionNumber::operator<( const SemanticVersionNumber& other ) cons
 					return mBuildMetadata < other.mBuildMetadata;
 				}
 
+				if ( !mLabel.empty() && !other.mLabel.empty() ) {
+					return mLabel < other.mLabel;
+				}
+
 				return !mLabel.empty();
 			}
 
-- 
2.43.0


From a1de970c5c0a2d281b0a64ef1d19480216d62c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:41 +0000
Subject: [PATCH 094/154] fix: compare version labels with text false

---
 Projects/Library/libSemVer/SemVer.os | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Projects/Library/libSemVer/SemVer.os b/Projects/Library/libSemVer/SemVer.os
index d6a1154..0a5bc08 100644
--- a/Projects/Library/libSemVer/SemVer.os
+++ b/Projects/Library/libSemVer/SemVer.os
@@ -88,11 +88,11 @@ private object SemVer const
 					if ( Label == other.Label ) {
 						return BuildNumber < other.BuildNumber;
 					}
-					else if ( Label && other.Label ) {
+					else if ( Label != "" && other.Label != "" ) {
 						return Label < other.Label;
 					}
 
-					return Label && !other.Label;
+					return Label != "";
 				}
 
 				return Bugfix < other.Bugfix;
@@ -114,11 +114,11 @@ private object SemVer const
 					if ( Label == other.Label ) {
 						return BuildNumber > other.BuildNumber;
 					}
-					else if ( Label && other.Label ) {
+					else if ( Label != "" && other.Label != "" ) {
 						return Label > other.Label;
 					}
 
-					return !Label && other.Label;
+					return Label == "";
 				}
 
 				return Bugfix > other.Bugfix;
@@ -148,7 +148,7 @@ private object SemVer const
 		return cast<string>( Major )
 			+ "." + cast<string>( Minor )
 			+ "." + cast<string>( Bugfix )
-			+ ( Label ? "-" + Label : "" )
-			+ ( BuildNumber ? "+" + BuildNumber : "" );
+			+ ( ( Label != "" ) ? "-" + Label : "" )
+			+ ( ( BuildNumber != "" ) ? "+" + BuildNumber : "" );
 	}
 }
-- 
2.43.0


From 47059d12dc8812da1772ac1aeb509b198e8ea9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:22:41 +0000
Subject: [PATCH 095/154] fix: parse empty arguments and arguments with blanks
 or several equal signs

---
 Projects/Library/libParam/ParameterHandler.os | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Projects/Library/libParam/ParameterHandler.os b/Projects/Library/libParam/ParameterHandler.os
index 31609c2..81d707e 100644
--- a/Projects/Library/libParam/ParameterHandler.os
+++ b/Projects/Library/libParam/ParameterHandler.os
@@ -192,6 +192,9 @@ public object ParameterHandler implements IIterable
 		string key;
 		string param;
 
+		// arguments handed over by the interpreter are separated by linebreaks and may contain blanks
+		string separator = ( strfind( args, LINEBREAK ) != -1 ) ? LINEBREAK : " ";
+
 		var it = new CharacterIterator( args );
 
 		string c;
@@ -207,8 +210,8 @@ public object ParameterHandler implements IIterable
 					isEscape = !isEscape;
 					break;
 				}
-				case !isString && ( c == " " || c == LINEBREAK ): {
-					if ( param || isValue ) {
+				case !isString && c == separator: {
+					if ( separator == LINEBREAK || param != "" || isValue ) {
 						insertParameter( isValue ? key : param, isValue ? param : "" );
 					}
 
@@ -219,7 +222,7 @@ public object ParameterHandler implements IIterable
 					param = "";
 					break;
 				}
-				case !isString && c == "=": {
+				case !isString && !isValue && c == "=": {
 					isValue = true;
 
 					key = param;
-- 
2.43.0


From 3d09b8b55b9c5f6d8ea337b6797d12809b230850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:42 +0000
Subject: [PATCH 096/154] fix: separate JSON array elements after false

---
 Projects/Library/libJson/Array.os  | 2 +-
 Projects/Library/libJson/Writer.os | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Library/libJson/Array.os b/Projects/Library/libJson/Array.os
index e3f0b93..32dc9a0 100644
--- a/Projects/Library/libJson/Array.os
+++ b/Projects/Library/libJson/Array.os
@@ -42,7 +42,7 @@ public object JsonArray extends JsonValue implements IIterable {
 		string members;
 
 		foreach ( JsonValue value : mMembers ) {
-			members += ( members ? ", " : "" ) + value.toString();
+			members += ( ( members != "" ) ? ", " : "" ) + value.toString();
 		}
 
 		return "[ " + members + " ]";
diff --git a/Projects/Library/libJson/Writer.os b/Projects/Library/libJson/Writer.os
index 8e06a5f..abe5456 100644
--- a/Projects/Library/libJson/Writer.os
+++ b/Projects/Library/libJson/Writer.os
@@ -24,7 +24,7 @@ public object JsonWriter {
 		if ( root.size() ) {
 			mIndentation++;
 			foreach ( JsonValue value : root ) {
-				if ( result ) {
+				if ( result != "" ) {
 					result += "," + mWhiteSpaceEnd;
 				}
 
-- 
2.43.0


From 79a7d8483a203c65548776d6c7013b77d68c6fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:42 +0000
Subject: [PATCH 097/154] fix: numbers read from JSON text stay numbers

---
 Projects/Library/libJson/Reader.os    | 3 ++-
 Projects/Library/libJson/Tokenizer.os | 5 +++--
 Projects/Library/libJson/Value.os     | 7 +++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/Projects/Library/libJson/Reader.os b/Projects/Library/libJson/Reader.os
index 854932b..d89012b 100644
--- a/Projects/Library/libJson/Reader.os
+++ b/Projects/Library/libJson/Reader.os
@@ -116,7 +116,8 @@ public object JsonReader {
                 break;
             }
             case TokenType.NUMBER: {
-                value = new JsonValue( token.value );
+                value = new JsonValue();
+                value.setNumber( token.value );
                 t.next();
                 break;
             }
diff --git a/Projects/Library/libJson/Tokenizer.os b/Projects/Library/libJson/Tokenizer.os
index 2b5642a..09d376c 100644
--- a/Projects/Library/libJson/Tokenizer.os
+++ b/Projects/Library/libJson/Tokenizer.os
@@ -13,7 +13,7 @@ public namespace Json { }
 public object Tokenizer {
 	public void Constructor() {
 		CHARS = new String( "ABCDEFGHIJKLMNOPRSTUVWXYZabcdefghijklmnoprstuvwxyz_" );
-		DIGITS = new String( "0123456789.-+e" );
+		DIGITS = new String( "0123456789.-+eE" );
 
 		RESERVED_WORDS = new Vector<Token>();
 		RESERVED_WORDS.push_back( new Token( TokenType.BOOLEAN, "false", Position null ) );
@@ -66,7 +66,8 @@ public object Tokenizer {
 	private Token getDigit() modify {
 		string result;
 
-		while ( isDigit( peek() ) ) {
+		string c;
+		while ( ( c = peek() ) != "" && isDigit( c ) ) {
 			result += consume();
 		}
 
diff --git a/Projects/Library/libJson/Value.os b/Projects/Library/libJson/Value.os
index 8626b30..b9fe704 100644
--- a/Projects/Library/libJson/Value.os
+++ b/Projects/Library/libJson/Value.os
@@ -154,6 +154,13 @@ public object JsonValue {
 		return mValueType == JsonValueType.String;
 	}
 
+	public void setNumber( string value ) modify {
+		mObjectValue = JsonValue null;
+		mValue       = value;
+		mType        = JsonType.Value;
+		mValueType   = JsonValueType.Number;
+	}
+
 	public void setValue( bool value ) modify {
 		mObjectValue = JsonValue null;
 		mValue       = value ? "true" : "false";
-- 
2.43.0


From 2aa0a38a71f61d01f18d762ab62130289124323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:42 +0000
Subject: [PATCH 098/154] fix: reject JSON text with missing or surplus
 brackets

---
 Projects/Library/libJson/Reader.os    | 8 ++++++--
 Projects/Library/libJson/Token.os     | 2 ++
 Projects/Library/libJson/Tokenizer.os | 4 ++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/Projects/Library/libJson/Reader.os b/Projects/Library/libJson/Reader.os
index d89012b..05f5522 100644
--- a/Projects/Library/libJson/Reader.os
+++ b/Projects/Library/libJson/Reader.os
@@ -22,7 +22,7 @@ public object JsonReader {
                 case TokenType.BRACKET_OPEN: {
                     value = parseArray( tokenIt );
 
-                    if ( tokenIt.current().type != TokenType.BRACKET_CLOSE ) {
+                    if ( tokenIt.current().type != TokenType.END ) {
                         throw "invalid JSON array";
                     }
                     break;
@@ -30,7 +30,7 @@ public object JsonReader {
                 case TokenType.CURLY_BRACKET_OPEN: {
                     value = parseObject( tokenIt );
 
-                    if ( tokenIt.current().type != TokenType.CURLY_BRACKET_CLOSE ) {
+                    if ( tokenIt.current().type != TokenType.END ) {
                         throw "invalid JSON object";
                     }
                     break;
@@ -74,6 +74,10 @@ public object JsonReader {
         require( t, TokenType.CURLY_BRACKET_OPEN );
 
         while ( t.current().type != TokenType.CURLY_BRACKET_CLOSE ) {
+            if ( t.current().type != TokenType.STRING && t.current().type != TokenType.IDENTIFIER ) {
+                throw "invalid key at " + t.current().position.toString();
+            }
+
             string key = t.current().value;
             t.next();
 
diff --git a/Projects/Library/libJson/Token.os b/Projects/Library/libJson/Token.os
index f117dba..088b1dd 100644
--- a/Projects/Library/libJson/Token.os
+++ b/Projects/Library/libJson/Token.os
@@ -15,6 +15,7 @@ public enum TokenType {
 	COMMA,
 	CURLY_BRACKET_CLOSE,
 	CURLY_BRACKET_OPEN,
+	END,
 	FALSE,
 	IDENTIFIER,
 	NULL,
@@ -33,6 +34,7 @@ public string TokenToString( TokenType type ) {
 		case TokenType.COMMA:			{ return ","; }
 		case TokenType.CURLY_BRACKET_CLOSE:	{ return "}"; }
 		case TokenType.CURLY_BRACKET_OPEN:	{ return "{"; }
+		case TokenType.END:				{ return "end of text"; }
 		case TokenType.FALSE:			{ return "FALSE"; }
 		case TokenType.IDENTIFIER:		{ return "IDENTIFIER"; }
 		case TokenType.NULL:			{ return "null"; }
diff --git a/Projects/Library/libJson/Tokenizer.os b/Projects/Library/libJson/Tokenizer.os
index 09d376c..6d30b1b 100644
--- a/Projects/Library/libJson/Tokenizer.os
+++ b/Projects/Library/libJson/Tokenizer.os
@@ -35,6 +35,10 @@ public object Tokenizer {
 			tokens.push_back( token );
 		}
 
+		if ( !tokens.empty() ) {
+			tokens.push_back( new Token( TokenType.END, "", getCurrentPos() ) );
+		}
+
 		return tokens;
 	}
 
-- 
2.43.0


From 972fbdeef8368d0376edafa499601a9da48c2741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:42 +0000
Subject: [PATCH 099/154] fix: escape quotes and backslashes in JSON strings

---
 Projects/Library/libJson/Object.os |  2 +-
 Projects/Library/libJson/Value.os  | 18 +++++++++++++++++-
 Projects/Library/libJson/Writer.os |  2 +-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/Projects/Library/libJson/Object.os b/Projects/Library/libJson/Object.os
index a10947b..98cf834 100644
--- a/Projects/Library/libJson/Object.os
+++ b/Projects/Library/libJson/Object.os
@@ -96,7 +96,7 @@ public object JsonObject extends JsonValue implements IIterable {
 		string members;
 
 		foreach ( Pair<string, JsonValue> p : mMembers ) {
-			members += ( members ? ", " : "" ) + "\"" + p.first + "\": " + p.second.toString();
+			members += ( members ? ", " : "" ) + "\"" + JsonEscape( p.first ) + "\": " + p.second.toString();
 		}
 
 		return "{ " + members + " }";
diff --git a/Projects/Library/libJson/Value.os b/Projects/Library/libJson/Value.os
index b9fe704..0fd6964 100644
--- a/Projects/Library/libJson/Value.os
+++ b/Projects/Library/libJson/Value.os
@@ -25,6 +25,22 @@ public enum JsonValueType {
 }
 
 
+/*
+ * returns the text with all characters escaped that must not appear in a JSON string
+ */
+public string JsonEscape( string text ) {
+	string result;
+
+	for ( int idx = 0; idx < strlen( text ); idx++ ) {
+		string c = substr( text, idx, 1 );
+
+		result += ( ( c == "\"" || c == "\\" ) ? "\\" + c : c );
+	}
+
+	return result;
+}
+
+
 public object JsonValue {
 // Public
 	public void Constructor() {
@@ -221,7 +237,7 @@ public object JsonValue {
 						return mValue ? "true" : "false";
 					}
 					case JsonValueType.String: {
-						return "\"" + mValue + "\"";
+						return "\"" + JsonEscape( mValue ) + "\"";
 					}
 					default: {
 						return cast<string>( mValue );
diff --git a/Projects/Library/libJson/Writer.os b/Projects/Library/libJson/Writer.os
index abe5456..2c0ddde 100644
--- a/Projects/Library/libJson/Writer.os
+++ b/Projects/Library/libJson/Writer.os
@@ -45,7 +45,7 @@ public object JsonWriter {
 				result += "," + mWhiteSpaceEnd;
 			}
 
-			result += indent( mIndentation ) + "\"" + p.first + "\": " + toString( p.second );
+			result += indent( mIndentation ) + "\"" + JsonEscape( p.first ) + "\": " + toString( p.second );
 		}
 		mIndentation--;
 
-- 
2.43.0


From e8cd2d607db658ac8b2de19478a56a3075fbb2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:42 +0000
Subject: [PATCH 100/154] fix: read escape sequences in JSON strings

---
 Projects/Library/libJson/Tokenizer.os | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/libJson/Tokenizer.os b/Projects/Library/libJson/Tokenizer.os
index 6d30b1b..5087376 100644
--- a/Projects/Library/libJson/Tokenizer.os
+++ b/Projects/Library/libJson/Tokenizer.os
@@ -198,7 +198,10 @@ public object Tokenizer {
 		string value;
 		while ( /*ch != "\\" &&*/ ( ch = mCharIterator.peek( 1 ) ) != "\"" ) {
 			if ( ch == "\\" ) {
-				ch = consume();
+				consume();
+
+				value += unescape( consume() );
+				continue;
 			}
 
 			value += consume();
@@ -209,6 +212,18 @@ public object Tokenizer {
 		return value;
 	}
 
+	private string unescape( string char ) const {
+		switch ( char ) {
+			case "b": { return ascii( 8 ); }
+			case "f": { return ascii( 12 ); }
+			case "n": { return ascii( 10 ); }
+			case "r": { return ascii( 13 ); }
+			case "t": { return ascii( 9 ); }
+		}
+
+		return char;
+	}
+
 	private void skipWhiteSpace() modify {
 		string c;
 
-- 
2.43.0


From 21f9675d21e48e659a42f7db756035fe59519505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:27:01 +0000
Subject: [PATCH 101/154] fix: the letter q is part of JSON words

---
 Projects/Library/libJson/Tokenizer.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/libJson/Tokenizer.os b/Projects/Library/libJson/Tokenizer.os
index 5087376..120eb8c 100644
--- a/Projects/Library/libJson/Tokenizer.os
+++ b/Projects/Library/libJson/Tokenizer.os
@@ -12,7 +12,7 @@ public namespace Json { }
 
 public object Tokenizer {
 	public void Constructor() {
-		CHARS = new String( "ABCDEFGHIJKLMNOPRSTUVWXYZabcdefghijklmnoprstuvwxyz_" );
+		CHARS = new String( "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_" );
 		DIGITS = new String( "0123456789.-+eE" );
 
 		RESERVED_WORDS = new Vector<Token>();
-- 
2.43.0


From 54d2175cf999ff2f07d4c9fd412739a93ed59cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:28:23 +0000
Subject: [PATCH 102/154] fix: arrays and objects inside a JSON document are
 accessible

---
 Projects/Library/libJson/Array.os  | 4 ++++
 Projects/Library/libJson/Object.os | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Projects/Library/libJson/Array.os b/Projects/Library/libJson/Array.os
index 32dc9a0..5525ee1 100644
--- a/Projects/Library/libJson/Array.os
+++ b/Projects/Library/libJson/Array.os
@@ -30,6 +30,10 @@ public object JsonArray extends JsonValue implements IIterable {
 		mMembers.insert( mMembers.size(), cast<JsonValue>( value ) );
 	}
 
+	public JsonArray asArray() const {
+		return this;
+	}
+
 	public Iterator<JsonValue> getIterator() const {
 		return mMembers.getIterator();
 	}
diff --git a/Projects/Library/libJson/Object.os b/Projects/Library/libJson/Object.os
index 98cf834..76986a0 100644
--- a/Projects/Library/libJson/Object.os
+++ b/Projects/Library/libJson/Object.os
@@ -69,6 +69,10 @@ public object JsonObject extends JsonValue implements IIterable {
 		mMembers.insert( key, value );
 	}
 
+	public JsonObject asObject() const {
+		return this;
+	}
+
 	public Iterator getIterator() const {
 		return mMembers.getIterator();
 	}
-- 
2.43.0


From ec68d7d5569484ea3568134fa12d9499cbe49042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:25 +0000
Subject: [PATCH 103/154] fix: shutdown recurses endlessly after circular
 inheritance has been rejected

---
 Projects/Core/Core/VirtualMachine/Controller.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/VirtualMachine/Controller.cpp b/Projects/Core/Core/VirtualMachine/Controller.cpp
index fdba603..36af278 100644
--- a/Projects/Core/Core/VirtualMachine/Controller.cpp
+++ b/Projects/Core/Core/VirtualMachine/Controller.cpp
@@ -115,9 +115,14 @@ void Controller::releaseReferences(MethodScope* scope) const
 
 	for ( const auto& symbol : symbols ) {
 		switch ( symbol.second->getSymbolType() ) {
-			case Symbol::IType::BluePrintObjectSymbol:
-				releaseReferences(dynamic_cast<Designtime::BluePrintObject*>(symbol.second));
-				break;
+			case Symbol::IType::BluePrintObjectSymbol: {
+				auto* blueprint = dynamic_cast<Designtime::BluePrintObject*>(symbol.second);
+
+				// parents are released by the scope they have been declared in
+				if ( blueprint->getEnclosingScope() == scope ) {
+					releaseReferences(blueprint);
+				}
+			} break;
 			case Symbol::IType::NamespaceSymbol:
 				releaseReferences(dynamic_cast<Common::Namespace*>(symbol.second));
 				break;
-- 
2.43.0


From 374e600a143852598fe68c2194932b4ffbb61982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:25 +0000
Subject: [PATCH 104/154] fix: exceptions thrown in catch- and finally-blocks
 escape the check for a missing 'throws'

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 9ee1085..b924108 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2076,6 +2076,10 @@ Statement* TreeGenerator::process_try(TokenIterator& token)
 	CatchStatements catchStatements;
 	Statements* finallyBlock = nullptr;
 
+	// exceptions that are thrown inside of catch- and finally-blocks are not handled by this try-statement
+	std::set<std::string> uncaughtExceptions = thrownExceptions;
+	std::set<std::string> tryExceptions;
+
 	// collect all catch- and finally-blocks
 	for ( ; ; ) {
 		if ( tmp != localEnd && tmp->content() == KEYWORD_CATCH ) {
@@ -2112,10 +2116,16 @@ Statement* TreeGenerator::process_try(TokenIterator& token)
 
 			// TODO: prevent duplicate catch-blocks
 
+			tryExceptions.swap(mThrownExceptions);
+
 			catchStatements.push_back(
 				new CatchStatement(startToken, typeDeclaration, process_scope(tmp))
 			);
 
+			uncaughtExceptions.insert(mThrownExceptions.begin(), mThrownExceptions.end());
+			mThrownExceptions.clear();
+			tryExceptions.swap(mThrownExceptions);
+
 			popScope();		// pop exception instance scope
 
 			// set token to end of catch-block
@@ -2128,9 +2138,15 @@ Statement* TreeGenerator::process_try(TokenIterator& token)
 
 			++tmp;
 
+			tryExceptions.swap(mThrownExceptions);
+
 			// parse finally-block
 			finallyBlock = process_scope(tmp);
 
+			uncaughtExceptions.insert(mThrownExceptions.begin(), mThrownExceptions.end());
+			mThrownExceptions.clear();
+			tryExceptions.swap(mThrownExceptions);
+
 			// set token to end of finally-block
 			token = tmp;
 		}
@@ -2147,7 +2163,7 @@ Statement* TreeGenerator::process_try(TokenIterator& token)
 	}
 
 	// merge local thrown exceptions list with global list
-	mThrownExceptions.insert(thrownExceptions.begin(), thrownExceptions.end());
+	mThrownExceptions.insert(uncaughtExceptions.begin(), uncaughtExceptions.end());
 
 	expect(Token::Type::BRACKET_CURLY_CLOSE, token);
 	++token;
-- 
2.43.0


From 64c6285fe8751bdc12b6c5085c77471f1869d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:26 +0000
Subject: [PATCH 105/154] fix: increment and decrement of bool and string
 values are only rejected at run time

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index b924108..cc80efc 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1540,6 +1540,10 @@ Expression* TreeGenerator::process_incdecrement(TokenIterator& token, Expression
 	}
 
 	if ( lhs->isAtomicType() ) {
+		if ( lhs->getResultType() == _bool || lhs->getResultType() == _string ) {
+			throw Common::Exceptions::UnknownOperation("unknown operation " + token->content() + " detected for type '" + lhs->getResultType() + "' during type check", token->position());
+		}
+
 		return new UnaryExpression((*token++), lhs, UnaryExpression::ValueType::LValue);
 	}
 
-- 
2.43.0


From 6853e6ebc57d224ce1e3cf137529c3493df21eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:31 +0000
Subject: [PATCH 106/154] fix: members are modifiable by const methods if they
 are accessed by 'this'

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index cc80efc..444c42a 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -2436,7 +2436,13 @@ SymbolExpression* TreeGenerator::resolve(TokenIterator& token, IScope* base, boo
 
 			scope = blueprint;
 
-			symbol = new DesigntimeSymbolExpression(name, type, constraints, blueprint->isAtomicType());
+			if ( result == mThis && name == IDENTIFIER_THIS ) {
+				// our own members are not modifiable from within const methods
+				symbol = new DesigntimeSymbolExpression(name, type, constraints, mMethod->isConstMethod(), true, blueprint->isAtomicType());
+			}
+			else {
+				symbol = new DesigntimeSymbolExpression(name, type, constraints, blueprint->isAtomicType());
+			}
 			//symbol = new DesigntimeSymbolExpression(name, type, constraints, bpo->isConst(), bpo->isMember(), blueprint->isAtomicType());
 		} break;
 		case Symbol::IType::NamespaceSymbol: {
-- 
2.43.0


From 70b8506dc87caffd7874cddfc6e0f9d21a8f1922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:37 +0000
Subject: [PATCH 107/154] fix: SequenceStar accesses a private member of its
 base class

---
 Projects/Library/libBehaviourTree/Control.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/libBehaviourTree/Control.os b/Projects/Library/libBehaviourTree/Control.os
index 9cfdce6..059bfbf 100644
--- a/Projects/Library/libBehaviourTree/Control.os
+++ b/Projects/Library/libBehaviourTree/Control.os
@@ -128,7 +128,7 @@ public object Sequence extends Control {
         return NodeStatus.Success;
     }
 
-    private int Index = 0;
+    protected int Index = 0;
 }
 
 public object ReactiveSequence extends Sequence {
-- 
2.43.0


From 498bfe8b526a269f8d47455d951953c2ce2b8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:37 +0000
Subject: [PATCH 108/154] fix: private members of a base class are usable in
 derived classes until run time

---
 Projects/Core/Core/Scope.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Scope.cpp b/Projects/Core/Core/Scope.cpp
index 696c370..10b7c0d 100644
--- a/Projects/Core/Core/Scope.cpp
+++ b/Projects/Core/Core/Scope.cpp
@@ -3,6 +3,7 @@
 #include "Scope.h"
 
 // Library includes
+#include <algorithm>
 #include <cassert>
 #include <utility>
 
@@ -339,7 +340,7 @@ Symbol* MethodScope::resolve(const std::string& name, bool onlyCurrentScope, Vis
 			Symbol* result = nullptr;
 
 			switch ( base->getSymbolType() ) {
-				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolve(name, true, visibility); break;
+				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolve(name, true, std::max(visibility, Visibility::Protected)); break;
 				case Symbol::IType::NamespaceSymbol: result = dynamic_cast<Common::Namespace*>(base)->resolve(name, true, visibility); break;
 				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolve(name, true, visibility); break;
 				default: throw Common::Exceptions::Exception("invalid scope type");
@@ -400,7 +401,7 @@ MethodSymbol* MethodScope::resolveMethod(const std::string& name, const Paramete
 			MethodSymbol* result = nullptr;
 
 			switch ( base->getSymbolType() ) {
-				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolveMethod(name, params, true, visibility); break;
+				case Symbol::IType::BluePrintObjectSymbol: result = dynamic_cast<Designtime::BluePrintObject*>(base)->resolveMethod(name, params, true, std::max(visibility, Visibility::Protected)); break;
 				case Symbol::IType::NamespaceSymbol: result = dynamic_cast<Common::Namespace*>(base)->resolveMethod(name, params, true, visibility); break;
 				case Symbol::IType::ObjectSymbol: result = dynamic_cast<Runtime::Object*>(base)->resolveMethod(name, params, true, visibility); break;
 				default: throw Common::Exceptions::Exception("invalid scope type");
-- 
2.43.0


From 0b6ee98445eaed7096cde7c13282098a1be15eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:00:17 +0000
Subject: [PATCH 109/154] fix: static members of a grandparent class are not
 found by class name or object

---
 Projects/Core/Core/Designtime/BluePrintObject.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index ee27e6b..5d6667e 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -365,6 +365,9 @@ void BluePrintObject::prepareParents(Repository* repository)
 			}
 		}
 
+		// locally define symbols our parent has inherited itself (unless they are hidden)
+		mExternalSymbols.insert(parent->mExternalSymbols.begin(), parent->mExternalSymbols.end());
+
 		// locally define parent's public and protected methods
 		MethodCollection methods = parent->provideMethods();
 		for ( auto& method : methods ) {
-- 
2.43.0


From 7904055daa14c1d0f3e09774b4298781ec00f9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:14 +0000
Subject: [PATCH 110/154] fix: abstract objects without abstract methods are
 instantiated

---
 Projects/Core/Core/AST/TreeGenerator.cpp          | 12 ++++++++----
 Projects/Core/Core/Designtime/BluePrintObject.cpp | 12 +++++++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 444c42a..f3e689d 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1769,12 +1769,16 @@ Expression* TreeGenerator::process_new(TokenIterator& token)
 				typeDeclaration.mConstraints
 			);
 
-			inner->mSymbolExpression = new DesigntimeSymbolExpression(RESERVED_WORD_CONSTRUCTOR, _void, PrototypeConstraints(), false);
-			inner->mSymbolExpression->mSurroundingScope = mRepository->findBluePrintObject(type);
-
-			if ( !inner->mSymbolExpression->mSurroundingScope ) {
+			auto* blueprint = mRepository->findBluePrintObject(type);
+			if ( !blueprint ) {
 				throw Common::Exceptions::UnknownIdentifier("unknown identifier '" + type + "'", token->position());
 			}
+			if ( blueprint->isAbstract() ) {
+				throw Common::Exceptions::AbstractException("cannot instantiate abstract object '" + type + "'", token->position());
+			}
+
+			inner->mSymbolExpression = new DesigntimeSymbolExpression(RESERVED_WORD_CONSTRUCTOR, _void, PrototypeConstraints(), false);
+			inner->mSymbolExpression->mSurroundingScope = blueprint;
 			break;
 		}
 	}
diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index 5d6667e..582dc66 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -261,7 +261,17 @@ bool BluePrintObject::isAtomicType() const
 
 bool BluePrintObject::isAbstract() const
 {
-	return mBluePrintType == BlueprintType::Interface || mMemoryLayout == MemoryLayout::Abstract;
+	if ( mBluePrintType == BlueprintType::Interface || mMemoryLayout == MemoryLayout::Abstract ) {
+		return true;
+	}
+
+	for ( auto& method : mMethods ) {
+		if ( method->isAbstractMethod() ) {
+			return true;
+		}
+	}
+
+	return false;
 }
 
 bool BluePrintObject::isEnumeration() const
-- 
2.43.0


From bc72ea07e78dbd8d0bb67bb27cc9d16f8b5f2f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:14 +0000
Subject: [PATCH 111/154] fix: objects marked as final can be extended

---
 Projects/Core/Core/VirtualMachine/Repository.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 9dc9ad4..5302019 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -18,6 +18,7 @@
 #include <Core/Designtime/BuildInTypes/StringType.h>
 #include <Core/Designtime/BuildInTypes/UserType.h>
 #include <Core/Designtime/BuildInTypes/VoidType.h>
+#include <Core/Designtime/Exceptions.h>
 #include <Core/Designtime/Parser/Parser.h>
 #include <Core/Runtime/BuildInTypes/BoolType.h>
 #include <Core/Runtime/BuildInTypes/DoubleType.h>
@@ -498,6 +499,10 @@ void Repository::initializeBlueprints()
 
 			switch ( ancestor.ancestorType() ) {
 				case Designtime::Ancestor::Type::Extends: {
+					if ( base->getMemoryLayout() == MemoryLayout::Final ) {
+						throw Designtime::Exceptions::DesigntimeException("final object '" + base->QualifiedTypename() + "' cannot be extended by '" + blueprint->QualifiedTypename() + "'");
+					}
+
 					blueprint->define(IDENTIFIER_BASE, base);
 				} break;
 				case Designtime::Ancestor::Type::Hidden: {
-- 
2.43.0


From 180853aee2d0208d9bef1793eec1fea6410f3bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:12:14 +0000
Subject: [PATCH 112/154] fix: errors inside of nested scopes abort the
 interpreter during shutdown

---
 Projects/Core/Core/AST/TreeInterpreter.cpp       | 9 ++++++++-
 Projects/Core/Core/VirtualMachine/StackFrame.cpp | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index b09b5df..e9cb770 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -668,7 +668,14 @@ Runtime::ControlFlow::E TreeInterpreter::execute(Runtime::Object* self, Common::
 	DEBUGGER( notifyEnter( &scope, method->getRootNode()->token() ) );
 
 	// interpret scope tokens
-	process(method->getRootNode());
+	try {
+		process(method->getRootNode());
+	}
+	catch ( ... ) {
+		// release our scopes as long as all objects in memory are still valid
+		finalize();
+		throw;
+	}
 
 	// notify debugger
 	//DEBUGGER( notifyExit( &scope, Core::Debugger::immediateBreakToken ) );
diff --git a/Projects/Core/Core/VirtualMachine/StackFrame.cpp b/Projects/Core/Core/VirtualMachine/StackFrame.cpp
index 91e9623..b958d50 100644
--- a/Projects/Core/Core/VirtualMachine/StackFrame.cpp
+++ b/Projects/Core/Core/VirtualMachine/StackFrame.cpp
@@ -33,6 +33,11 @@ StackFrame::StackFrame(unsigned long level, IScope* scope, ParameterList params)
 
 StackFrame::~StackFrame()
 {
+	// release scopes that have not been left regularly
+	while ( !mScopeStack.empty() ) {
+		popScope();
+	}
+
 	mScope = nullptr;
 }
 
-- 
2.43.0


From 8d8a7cc2215f1ec37b87cb4297e710d59627221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:21 +0000
Subject: [PATCH 113/154] fix: implementing an abstract method of an indirect
 base leaves a dangling method

---
 Projects/Core/Core/Object.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index ecfe090..ffa854a 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -211,8 +211,10 @@ void Object::defineMethod(const std::string& name, Common::Method* method)
 	// try to override abstract methods a.k.a. implement an interface method
 	auto* old = dynamic_cast<Common::Method*>(resolveMethod(method->getName(), method->provideSignature(), true, Visibility::Designtime));
 	if ( old && old->isAbstractMethod() ) {
-		auto* base = dynamic_cast<Object*>(resolve(IDENTIFIER_BASE, true, Visibility::Designtime));
-		base->undefineMethod(old);
+		// the abstract method may be declared by any of our base objects
+		for ( auto* base = dynamic_cast<Object*>(resolve(IDENTIFIER_BASE, true, Visibility::Designtime)); base; base = dynamic_cast<Object*>(base->resolve(IDENTIFIER_BASE, true, Visibility::Designtime)) ) {
+			base->undefineMethod(old);
+		}
 
 		delete old;
 	}
-- 
2.43.0


From ed54a48ad18b712e7a11750f1cf731d62e659990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:24 +0000
Subject: [PATCH 114/154] fix: block comments that follow each other directly
 swallow source code

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 32858d3..144ff46 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -428,6 +428,8 @@ void Tokenizer::process()
 		// multi line comments '/*'
 		else if ( !isMultiLineComment && !isSingleLineComment && !isString && previousChar == '/' && currentChar == '*' ) {
 			isMultiLineComment = true;
+			// this '*' must not be used to close the comment again
+			currentChar = 0;
 			// remove last inserted token
 			mTokens.pop_back();
 		}
@@ -475,6 +477,8 @@ void Tokenizer::process()
 		// multi line comments '*/'
 		if ( isMultiLineComment && previousChar == '*' && currentChar == '/' ) {
 			isMultiLineComment = false;
+			// this '/' must not be used to open another comment
+			currentChar = 0;
 		}
 
 		// counting lines and columns
-- 
2.43.0


From 9c3dc501e31d5584e47e047691858e89f55f511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:24 +0000
Subject: [PATCH 115/154] fix: words directly followed by a string literal are
 not recognized

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 144ff46..86bb03f 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -445,6 +445,12 @@ void Tokenizer::process()
 			else {
 				if ( currentChar == '"' ) {
 					isString = !isString;
+
+					if ( isString && !token.empty() ) {
+						// a word directly in front of a string is a token of its own
+						addToken(token, pos);
+						token.clear();
+					}
 				}
 				else if ( isString && currentChar == '\\' ) {
 					isEscapeSequence = true;
-- 
2.43.0


From c8c271ac8307d4a236cd5459a223d3b49567c6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:42:31 +0000
Subject: [PATCH 116/154] fix: errors in a destructor terminate the interpreter

---
 Projects/Core/Core/VirtualMachine/Memory.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/VirtualMachine/Memory.cpp b/Projects/Core/Core/VirtualMachine/Memory.cpp
index fd23cc4..52fac4a 100644
--- a/Projects/Core/Core/VirtualMachine/Memory.cpp
+++ b/Projects/Core/Core/VirtualMachine/Memory.cpp
@@ -91,7 +91,13 @@ void Memory::deleteObject(const Runtime::Reference& ref)
 			bool isCollecting = mIsCollecting;
 			mIsCollecting = false;
 
-			it->second.mObject->Destructor();
+			try {
+				it->second.mObject->Destructor();
+			}
+			catch ( std::exception& e ) {
+				// we are called by destructors ourselves, so nobody could handle this error
+				OSerror( "Destructor failed: " << e.what() );
+			}
 
 			mIsCollecting = isCollecting;
 
-- 
2.43.0


From 95ce61f41a5deea25f458601bab475496d36ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:18:56 +0000
Subject: [PATCH 117/154] fix: incomplete source code is read past its end

---
 Projects/Core/Core/AST/TreeGenerator.cpp        |  3 +++
 Projects/Core/Core/Common/Utils.cpp             | 12 ++++++++++++
 Projects/Core/Core/Designtime/Analyser.cpp      |  4 ++++
 Projects/Core/Core/Designtime/Parser/Parser.cpp | 14 ++++++++++++++
 4 files changed, 33 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index f3e689d..6da3925 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -57,6 +57,9 @@ void TreeGenerator::collectScopeTokens(TokenIterator& token, TokenList& tokens)
 
 	++token;
 	expect(Token::Type::BRACKET_CURLY_CLOSE, token);
+
+	// incomplete statements must not be able to leave our list of tokens
+	tokens.emplace_back(Token::Category::None, Token::Type::ENDOFFILE, "", token->position());
 }
 
 Node* TreeGenerator::expression(TokenIterator& start)
diff --git a/Projects/Core/Core/Common/Utils.cpp b/Projects/Core/Core/Common/Utils.cpp
index 2d1c0e9..edb00e9 100644
--- a/Projects/Core/Core/Common/Utils.cpp
+++ b/Projects/Core/Core/Common/Utils.cpp
@@ -30,6 +30,9 @@ TokenIterator findNext(TokenIterator start, Token::Type::E type, Token::Type::E
 			// we did not find a result before the defined end-token appeared
 			return start;
 		}
+		if ( tmp->type() == Token::Type::ENDOFFILE ) {
+			throw Designtime::Exceptions::SyntaxError("unexpected end found", tmp->position());
+		}
 
 		++tmp;
 	}
@@ -55,6 +58,9 @@ TokenIterator findNextBalancedBracket(TokenIterator start, int generateErrorAfte
 			// we did not find a result before the defined end-token appeared
 			return tmp;
 		}
+		if ( start->type() == Token::Type::ENDOFFILE ) {
+			throw Designtime::Exceptions::SyntaxError("unexpected end found", start->position());
+		}
 		if ( generateErrorAfter && count >= generateErrorAfter ) {
 			throw Designtime::Exceptions::SyntaxError("Closed bracket expected, but none found after " + Utils::Tools::toString(count) + " iteration(s)", start->position());
 		}
@@ -82,6 +88,9 @@ TokenIterator findNextBalancedCurlyBracket(TokenIterator start, TokenIterator en
 		if ( openCurlyBrackets == 0 && start->type() == terminator ) {
 			break;
 		}
+		if ( start->type() == Token::Type::ENDOFFILE ) {
+			throw Designtime::Exceptions::SyntaxError("unexpected end found", start->position());
+		}
 
 		if ( generateErrorAfter && count >= generateErrorAfter ) {
 			throw Designtime::Exceptions::SyntaxError("Closed curly bracket expected, but none found after " + Utils::Tools::toString(count) + " iteration(s)", start->position());
@@ -112,6 +121,9 @@ TokenIterator findNextBalancedParenthesis(TokenIterator start, int generateError
 			// we did not find a result before the defined end-token appeared
 			return tmp;
 		}
+		if ( start->type() == Token::Type::ENDOFFILE ) {
+			throw Designtime::Exceptions::SyntaxError("unexpected end found", start->position());
+		}
 		if ( generateErrorAfter && count >= generateErrorAfter ) {
 			throw Designtime::Exceptions::SyntaxError("closed parenthesis expected, but none found after " + Utils::Tools::toString(count) + " iteration(s)", start->position());
 		}
diff --git a/Projects/Core/Core/Designtime/Analyser.cpp b/Projects/Core/Core/Designtime/Analyser.cpp
index 1dc33e1..a6758db 100644
--- a/Projects/Core/Core/Designtime/Analyser.cpp
+++ b/Projects/Core/Core/Designtime/Analyser.cpp
@@ -255,6 +255,7 @@ bool Analyser::createEnum(TokenIterator& token)
 
 	// collect all tokens of this method
 	TokenList tokens = Parser::collectScopeTokens(token);
+	tokens.pop_back();	// our enum values are not terminated
 
 	auto* symbol = new BluePrintObject(type.mName, mFilename);
 	symbol->setBluePrintType(bluePrintType);
@@ -399,6 +400,9 @@ bool Analyser::createMemberOrMethod(TokenIterator& token)
 	// look for the type token and resolve full typename
 	Common::TypeDeclaration type = parseTypeDeclaration(token, mScope);
 	// look for the identifier token
+	if ( token->type() == Token::Type::ENDOFFILE ) {
+		throw Exceptions::SyntaxError("identifier expected but none found", token->position());
+	}
 	std::string name = (*token++).content();
 
 	if ( token->type() == Token::Type::PARENTHESIS_OPEN ) {
diff --git a/Projects/Core/Core/Designtime/Parser/Parser.cpp b/Projects/Core/Core/Designtime/Parser/Parser.cpp
index fa16744..93a3d82 100644
--- a/Projects/Core/Core/Designtime/Parser/Parser.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Parser.cpp
@@ -345,17 +345,27 @@ TokenList Parser::collectScopeTokens(TokenIterator& token)
 		if ( token->type() == Token::Type::BRACKET_CURLY_CLOSE ) {
 			--scope;
 		}
+		if ( token->type() == Token::Type::ENDOFFILE ) {
+			throw Exceptions::SyntaxError("unexpected end found", token->position());
+		}
 
 		tokens.emplace_back((*token));
 	}
 
 	expect(Token::Type::BRACKET_CURLY_CLOSE, token);
 
+	// incomplete statements must not be able to leave our list of tokens
+	tokens.emplace_back(Token::Category::None, Token::Type::ENDOFFILE, "", token->position());
+
 	return tokens;
 }
 
 std::string Parser::identify(TokenIterator& token)
 {
+	if ( token->type() == Token::Type::ENDOFFILE ) {
+		throw Exceptions::SyntaxError("unexpected end found", token->position());
+	}
+
 	std::string type = token->content();
 
 	while ( (token++)->type() == Token::Type::IDENTIFIER ) {
@@ -366,6 +376,8 @@ std::string Parser::identify(TokenIterator& token)
 		// add next token to type definition
 		type += token->content();
 		type += (++token)->content();
+
+		expect(Token::Type::IDENTIFIER, token);
 	}
 
 	return type;
@@ -565,6 +577,8 @@ ParameterList Parser::parseParameters(TokenIterator& token, IScope* scope)
 		if ( token->type() == Token::Type::PARENTHESIS_CLOSE ) {
 			break;
 		}
+
+		expect(Token::Type::COMMA, token);
 	}
 
 	expect(Token::Type::PARENTHESIS_CLOSE, token);
-- 
2.43.0


From 2cd06a729f2f4c540aebc0c6627aba43595e1d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:18:56 +0000
Subject: [PATCH 118/154] fix: typecasts and instantiations of something else
 than a type crash

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 6da3925..407062f 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1453,6 +1453,10 @@ Node* TreeGenerator::process_identifier(TokenIterator& token, bool allowTypeCast
 		) {
 		//OSinfo("C-style typecasts will soon be deprecated");
 
+		if ( !dynamic_cast<DesigntimeSymbolExpression*>(symbol) ) {
+			throw Designtime::Exceptions::SyntaxError("unexpected token '" + op->content() + "' found", op->position());
+		}
+
 		mRepository->prepareType(Common::TypeDeclaration(symbol->getResultType(), dynamic_cast<DesigntimeSymbolExpression*>(symbol)->mConstraints));
 
 		std::string type = symbol->getResultType();
@@ -1762,7 +1766,12 @@ Expression* TreeGenerator::process_new(TokenIterator& token)
 			inner = inner->mSymbolExpression;
 		}
 		else {
-			const PrototypeConstraints constraints = dynamic_cast<DesigntimeSymbolExpression*>(inner)->mConstraints;
+			auto* typeExp = dynamic_cast<DesigntimeSymbolExpression*>(inner);
+			if ( !typeExp ) {
+				throw Common::Exceptions::InvalidSymbol(inner->toString(), token->position());
+			}
+
+			const PrototypeConstraints constraints = typeExp->mConstraints;
 
 			const Common::TypeDeclaration typeDeclaration(inner->getResultType(), constraints);
 			mRepository->prepareType(typeDeclaration);
-- 
2.43.0


From 8006c210c725154947690657a06850764a354814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:18:56 +0000
Subject: [PATCH 119/154] fix: 'operator' as last word of a file removes the
 end of the file

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 86bb03f..2058c65 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -907,7 +907,7 @@ void Tokenizer::replaceOperators()
 			// ... and erase the previous one
 			mTokens.erase(last);
 		}
-		else if ( last != mTokens.end() && last->type() == Token::Type::RESERVED_WORD && last->content() == RESERVED_WORD_OPERATOR ) {
+		else if ( last != mTokens.end() && last->type() == Token::Type::RESERVED_WORD && last->content() == RESERVED_WORD_OPERATOR && token->type() != Token::Type::ENDOFFILE ) {
 			// previous token was an "operator" token
 
 			// erase it ...
-- 
2.43.0


From 28dc21fc1509e9348005864b8ab16d322dbaad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:18:56 +0000
Subject: [PATCH 120/154] fix: objects that extend the object they are declared
 in crash

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 6 ++++++
 Projects/Core/Core/AST/TreeGenerator.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 407062f..4e3496b 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -645,8 +645,14 @@ void TreeGenerator::processBluePrint(const Designtime::BluePrintObject* object)
 		// skip prototypes
 		return;
 	}
+	if ( !mActiveBluePrints.insert( object ).second ) {
+		// this object is based on an object it is declared in, so we're already processing it
+		return;
+	}
 
 	process( object );
+
+	mActiveBluePrints.erase( object );
 }
 
 /*
diff --git a/Projects/Core/Core/AST/TreeGenerator.h b/Projects/Core/Core/AST/TreeGenerator.h
index 55ea609..d4a3dec 100644
--- a/Projects/Core/Core/AST/TreeGenerator.h
+++ b/Projects/Core/Core/AST/TreeGenerator.h
@@ -182,6 +182,7 @@ private:
 	Runtime::ControlFlow::E mControlFlow;
 	Common::Method* mMethod;
 	Designtime::BluePrintObject* mThis;
+	std::set<const Designtime::BluePrintObject*> mActiveBluePrints;
 	std::set<std::string> mThrownExceptions;
 
 private:	// Virtual machine stuff
-- 
2.43.0


From ae5ef59d32aa31f4a8c20c8619203d3d4e58b14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:33:59 +0000
Subject: [PATCH 121/154] fix: rethrowing without a current exception crashes

---
 Projects/slang/main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Projects/slang/main.cpp b/Projects/slang/main.cpp
index f5840f3..32e411f 100644
--- a/Projects/slang/main.cpp
+++ b/Projects/slang/main.cpp
@@ -253,8 +253,11 @@ int main( int argc, const char* argv[] )
 		Utils::Common::printStackTrace();
 
 		if ( e == Runtime::ControlFlow::Throw ) {
+			// there's no exception data in case nothing has been rethrown
+			auto* data = Controller::Instance().thread( 0 )->exception().getData();
+
 			OSerror( "Exception thrown in " << Controller::Instance().thread( 0 )->exception().getPosition().toString() << std::endl
-			         << Controller::Instance().thread( 0 )->exception().getData()->ToString() );
+			         << ( data ? data->ToString() : "" ) );
 		}
 		else {
 			OSerror( "abnormal program termination!" );
-- 
2.43.0


From d180e5ef445f11c67b9a905e09cb1daadeb16a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:34:47 +0000
Subject: [PATCH 122/154] fix: loops without separators are read past the end
 of their tokens

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 4e3496b..93a87e5 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1306,6 +1306,7 @@ Statement* TreeGenerator::process_for(TokenIterator& token)
 		initialization = process_statement(token);
 	}
 
+	expect(Token::Type::SEMICOLON, token);
 	++token;
 	// }
 
@@ -1320,6 +1321,7 @@ Statement* TreeGenerator::process_for(TokenIterator& token)
 		}
 	}
 
+	expect(Token::Type::SEMICOLON, token);
 	++token;
 	// }
 
@@ -1330,6 +1332,7 @@ Statement* TreeGenerator::process_for(TokenIterator& token)
 		iteration = process_statement(token, true);
 	}
 
+	expect(Token::Type::PARENTHESIS_CLOSE, token);
 	++token;
 	// }
 
-- 
2.43.0


From a392be2bd7abdf1a6ae4ac209711e52e97e0536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:46:45 +0000
Subject: [PATCH 123/154] fix: failed downloads of slang-pkg are treated as
 successful

---
 Projects/slang-pkg/Application/Application.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index 7792961..caa8f75 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -632,8 +632,11 @@ bool download( const std::string& url, const std::string& target, bool allowClea
         /* write the page body to this file handle */
         curl_easy_setopt( curl_handle, CURLOPT_WRITEDATA, pagefile );
 
+        /* treat HTTP errors as failed download */
+        curl_easy_setopt( curl_handle, CURLOPT_FAILONERROR, 1L );
+
         /* get it! */
-        curl_easy_perform( curl_handle );
+        result = curl_easy_perform( curl_handle ) == CURLE_OK;
 
         /* close the header file */
         fclose( pagefile );
@@ -641,8 +644,6 @@ bool download( const std::string& url, const std::string& target, bool allowClea
         if ( allowCleanup ) {
             mDownloadedFiles.push_back( target );
         }
-
-        result = true;
     }
 
     /* cleanup curl stuff */
-- 
2.43.0


From 06ef7dd66c8c05dd1e08c0a83f7b0bb7ef1456a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:46:46 +0000
Subject: [PATCH 124/154] fix: slang-pkg ignores the index it has just
 downloaded

---
 Projects/slang-pkg/Application/Application.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index caa8f75..e76e3fb 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -696,6 +696,7 @@ void info( const StringList& params )
         collectLocalModuleData();
         if ( !prepareRemoteRepository() ) {
             update();
+            prepareRemoteRepository();
         }
 
         std::string moduleName;
@@ -783,6 +784,7 @@ void install( const StringList& params )
     collectLocalModuleData();
     if ( !prepareRemoteRepository() ) {
         update();
+        prepareRemoteRepository();
     }
 
     std::cout << "Preparing dependencies..." << std::endl;
@@ -1424,6 +1426,7 @@ void upgrade( const StringList& params )
     collectLocalModuleData();
     if ( !prepareRemoteRepository() ) {
         update();
+        prepareRemoteRepository();
     }
 
     Modules outdatedModules;
-- 
2.43.0


From f8dfd327340a14fd507a079fa7e8634be73d5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:46:46 +0000
Subject: [PATCH 125/154] fix: slang-pkg installs dependencies that violate
 their minimum version

---
 .../slang-pkg/Application/Application.cpp     | 42 +++++++++++++++----
 Projects/slang-pkg/Common/Repository.cpp      |  6 +++
 Projects/slang-pkg/Common/Repository.h        |  2 +
 3 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/Projects/slang-pkg/Application/Application.cpp b/Projects/slang-pkg/Application/Application.cpp
index e76e3fb..d523c47 100644
--- a/Projects/slang-pkg/Application/Application.cpp
+++ b/Projects/slang-pkg/Application/Application.cpp
@@ -462,6 +462,9 @@ void collectLocalModuleData()
 
     struct dirent* dirEntry = readdir( dir );
 
+    // forget about modules of a previous call
+    mLocalRepository = Repository( "local" );
+
     // add Slang version as virtually installed module to force correct dependencies
     // {
     Module slang;
@@ -789,6 +792,8 @@ void install( const StringList& params )
 
     std::cout << "Preparing dependencies..." << std::endl;
 
+    mMissingDependencies = Repository( "missing" );
+
     bool forceVersion = mSettings.Force;
 
     for ( const auto& param : params ) {
@@ -810,7 +815,17 @@ void install( const StringList& params )
             forceVersion = true;
         }
 
-        prepareModuleInstallation( mRemoteRepository.getURL(), Module( moduleName, version, source ) );
+        Module missing;
+        Module requested( moduleName, version, source );
+
+        if ( mMissingDependencies.getModule( moduleName, missing ) && requested.mVersion < missing.mVersion ) {
+            // another requested module already needs a higher version
+            continue;
+        }
+
+        mMissingDependencies.replaceModule( requested );
+
+        prepareModuleInstallation( mRemoteRepository.getURL(), requested );
     }
 
     bool allowInstall = true;
@@ -837,12 +852,14 @@ void install( const StringList& params )
 
         Module missingModule( moduleName, version, source );
 
+        mMissingDependencies.addModule( missingModule );
+    }
+
+    for ( const auto& missingModule : mMissingDependencies.getModules() ) {
         if ( !checkRestrictions( missingModule ) ) {
             allowInstall = false;
             std::cout << "!!! Module " << missingModule.mShortName << "( " << missingModule.mVersion.toString() << " ) cannot be installed due to current module restrictions" << std::endl;
         }
-
-        mMissingDependencies.addModule( missingModule );
     }
 
     if ( allowInstall ) {
@@ -1078,21 +1095,32 @@ void prepareModuleInstallation( const std::string& repo, const Module& installMo
     for ( const auto& dependency : module.mDependencies ) {
         bool found = false;
 
+        Module dependent( dependency.Module, dependency.MinVersion, dependency.Source );
+
+        if ( dependency.MinVersion.empty() ) {
+            // any version is fine, so use the one of the repository
+            mRemoteRepository.getModule( dependency.Module, dependent );
+        }
+
         // look up dependency in already installed modules
         for ( const auto& module : localModules ) {
-            if ( module.mShortName == dependency.Module ) {
+            if ( module.mShortName == dependency.Module && ( dependency.MinVersion.empty() || !( module.mVersion < dependent.mVersion ) ) ) {
                 found = true;
                 break;
             }
         }
 
+        // look up dependency in modules that are going to be installed
+        Module missing;
+        if ( mMissingDependencies.getModule( dependency.Module, missing ) && !( missing.mVersion < dependent.mVersion ) ) {
+            found = true;
+        }
+
         if ( !found ) {
             // dependent module is not yet installed
             std::cout << "Need to install dependent module \"" << dependency.Module << "\"" << std::endl;
 
-            Module dependent( dependency.Module, dependency.MinVersion, dependency.Source );
-
-            mMissingDependencies.addModule( dependent );
+            mMissingDependencies.replaceModule( dependent );
 
             prepareModuleInstallation( repo, dependent );
         }
diff --git a/Projects/slang-pkg/Common/Repository.cpp b/Projects/slang-pkg/Common/Repository.cpp
index b0dbd62..8161541 100644
--- a/Projects/slang-pkg/Common/Repository.cpp
+++ b/Projects/slang-pkg/Common/Repository.cpp
@@ -51,6 +51,12 @@ bool Repository::getModule( const std::string& shortName, Module& module ) const
 	return false;
 }
 
+void Repository::replaceModule( const Module& module )
+{
+	mModules.erase( module );
+	mModules.insert( module );
+}
+
 bool Repository::processIndex( const Json::Value& value )
 {
 	if ( !value.isMember( "modules" ) ) {
diff --git a/Projects/slang-pkg/Common/Repository.h b/Projects/slang-pkg/Common/Repository.h
index bfae7bf..4b86ff5 100644
--- a/Projects/slang-pkg/Common/Repository.h
+++ b/Projects/slang-pkg/Common/Repository.h
@@ -37,6 +37,8 @@ public:
 	bool contains( const Module& module ) const;
 	bool getModule( const std::string& shortName, Module& module ) const;
 
+	void replaceModule( const Module& module );
+
 	bool processIndex( const Json::Value& value );
 
 public:
-- 
2.43.0


From 7e385b316298ece55a86000fd762a216d459539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:17 +0000
Subject: [PATCH 126/154] fix: conditional breakpoints ignore their condition

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index ba82d2f..5c2bcdc 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -686,6 +686,9 @@ int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
 {
     writeln( "[Breakpoint " + breakpoint.toString() + " reached]" );
 
+    // symbols of a condition are looked up in the current scope
+    mScope = scope;
+
     // Condition check
     const auto& condition = breakpoint.getCondition();
     Symbol* lhs = getSymbol( condition.lhs() );
@@ -704,6 +707,7 @@ int LocalClient::notify( IScope* scope, const Core::BreakPoint& breakpoint )
 
     if (  condition.isValid() && !condition.evaluate( lhs, rhs )  ) {
         mContinue = true;
+        mScope = nullptr;
         return 0;
     }
 
-- 
2.43.0


From bb2dfcec6ce93f53276034dd80714fab2b48f5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:57:39 +0000
Subject: [PATCH 127/154] fix: the last word of a file is ignored

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 2058c65..4526990 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -501,7 +501,7 @@ void Tokenizer::process()
 		previousChar = currentChar;
 	}
 
-	if ( previousChar != 0 ) {
+	if ( !token.empty() ) {
 		addToken(token, pos);
 	}
 
-- 
2.43.0


From f883e85f6bd5a94bbb2e50b0b1f7babadd6c40fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:59:42 +0000
Subject: [PATCH 128/154] fix: stepping into methods without a body crashes

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index e9cb770..a88a9e3 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -665,7 +665,7 @@ Runtime::ControlFlow::E TreeInterpreter::execute(Runtime::Object* self, Common::
 
 	// notify debugger
 	//DEBUGGER( notifyEnter( &scope, Core::Debugger::immediateBreakToken ) );
-	DEBUGGER( notifyEnter( &scope, method->getRootNode()->token() ) );
+	DEBUGGER( notifyEnter( &scope, method->getRootNode() ? method->getRootNode()->token() : Core::Debugger::immediateBreakToken ) );
 
 	// interpret scope tokens
 	try {
@@ -679,7 +679,7 @@ Runtime::ControlFlow::E TreeInterpreter::execute(Runtime::Object* self, Common::
 
 	// notify debugger
 	//DEBUGGER( notifyExit( &scope, Core::Debugger::immediateBreakToken ) );
-	DEBUGGER( notifyExit( &scope, method->getRootNode()->token() ) );
+	DEBUGGER( notifyExit( &scope, method->getRootNode() ? method->getRootNode()->token() : Core::Debugger::immediateBreakToken ) );
 
 	// only set return value if we are a non-void method
 	if ( result && method->QualifiedTypename() != _void ) {
-- 
2.43.0


From 94a1f2c1f07526374e1eafa42782459f11014f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:11 +0000
Subject: [PATCH 129/154] fix: frame and thread commands crash without a
 running program

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index 5c2bcdc..3070325 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -382,7 +382,7 @@ void LocalClient::executeMethod( const StringList &tokens )
 
 void LocalClient::frameDown()
 {
-	if (  mCurrentFrameId >= Controller::Instance().thread( mCurrentThreadId )->getNumFrames()  ) {
+	if (  !mVirtualMachine || mCurrentFrameId >= Controller::Instance().thread( mCurrentThreadId )->getNumFrames()  ) {
 		return;
 	}
 
@@ -396,7 +396,7 @@ void LocalClient::frameDown()
 
 void LocalClient::frameUp()
 {
-	if (  mCurrentFrameId <= 0  ) {
+	if (  !mVirtualMachine || mCurrentFrameId <= 0  ) {
 		return;
 	}
 
@@ -910,6 +910,10 @@ void LocalClient::printThreads()
 {
 	writeln( "Threads:" );
 
+	if (  !mVirtualMachine  ) {
+		return;
+	}
+
 	Controller::Instance().threads()->print();
 }
 
@@ -1041,7 +1045,7 @@ void LocalClient::saveConfig()
 
 void LocalClient::setCurrentFrame( FrameId frameId )
 {
-	if (  frameId >= Controller::Instance().thread( mCurrentThreadId )->getNumFrames()  ) {
+	if (  !mVirtualMachine || frameId >= Controller::Instance().thread( mCurrentThreadId )->getNumFrames()  ) {
 		writeln( "invalid frame selected!" );
 		return;
 	}
@@ -1078,7 +1082,7 @@ void LocalClient::setCurrentFrame( const StringList& tokens )
 
 void LocalClient::setCurrentThread( ThreadId threadId )
 {
-	if (  threadId >= Controller::Instance().threads()->getNumThreads()  ) {
+	if (  !mVirtualMachine || threadId >= Controller::Instance().threads()->getNumThreads()  ) {
 		writeln( "invalid thread selected!" );
 		return;
 	}
-- 
2.43.0


From 5dcfa30f8e8b42e6b28fdbe54d17650bf002cb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:11 +0000
Subject: [PATCH 130/154] fix: listing methods without a body crashes

---
 Projects/slang-dbg/LocalClient/LocalClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/slang-dbg/LocalClient/LocalClient.cpp b/Projects/slang-dbg/LocalClient/LocalClient.cpp
index 3070325..38e1ffa 100644
--- a/Projects/slang-dbg/LocalClient/LocalClient.cpp
+++ b/Projects/slang-dbg/LocalClient/LocalClient.cpp
@@ -847,7 +847,7 @@ void LocalClient::printHelp()
 void LocalClient::printScope( IScope* scope )
 {
 	auto* method = getMethodFromScope( scope );
-	if (  !method  ) {
+	if (  !method || !method->getRootNode()  ) {
 		return;
 	}
 
-- 
2.43.0


From 8b5f12c4d03bae6c91a2e423a99ce4b9a7d86ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:10:13 +0000
Subject: [PATCH 131/154] fix: !& is false only if both operands are true

---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index a88a9e3..975de87 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -203,7 +203,7 @@ void TreeInterpreter::evaluateBooleanBinaryExpression(BooleanBinaryExpression* e
 		// boolean expressions
 		// {
 		case Token::Type::AND:  *result = Runtime::BoolType(leftResult && isTrue(right)); break;
-		case Token::Type::NAND: *result = Runtime::BoolType(!leftResult && !isTrue(right)); break;
+		case Token::Type::NAND: *result = Runtime::BoolType(!leftResult || !isTrue(right)); break;
 		case Token::Type::NOR:  *result = Runtime::BoolType(!leftResult || !isTrue(right)); break;
 		case Token::Type::OR:   *result = Runtime::BoolType(leftResult || isTrue(right)); break;
 		// }
-- 
2.43.0


From 788fa28343221cf13b33b6779e76951a6cdbda89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:55 +0000
Subject: [PATCH 132/154] fix: sockets use the given port number in network
 byte order

---
 Projects/Extensions/System/Network/Bind.h    | 2 +-
 Projects/Extensions/System/Network/Connect.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Projects/Extensions/System/Network/Bind.h b/Projects/Extensions/System/Network/Bind.h
index 3dc4912..266d3c6 100644
--- a/Projects/Extensions/System/Network/Bind.h
+++ b/Projects/Extensions/System/Network/Bind.h
@@ -99,7 +99,7 @@ private:
 		inet_pton(serv_addr.sin_family, static_cast<Runtime::StringType*>( addressSymbol )->getValue().toStdString().c_str(), &serv_addr.sin_addr);
 
 		// set sa_port
-		serv_addr.sin_port = static_cast<in_port_t>( static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt() );
+		serv_addr.sin_port = htons( static_cast<in_port_t>( static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt() ) );
 #endif
 
 		return bind(param_sockfd, (sockaddr *) &serv_addr, sizeof(serv_addr));
diff --git a/Projects/Extensions/System/Network/Connect.h b/Projects/Extensions/System/Network/Connect.h
index c50a4c3..c94ba8b 100644
--- a/Projects/Extensions/System/Network/Connect.h
+++ b/Projects/Extensions/System/Network/Connect.h
@@ -94,7 +94,7 @@ private:
 		inet_pton(serv_addr.sin_family, static_cast<Runtime::StringType*>(addressSymbol)->getValue().toStdString().c_str(), &serv_addr.sin_addr);
 
 		// set sa_port
-		serv_addr.sin_port = static_cast<in_port_t>( static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt() );
+		serv_addr.sin_port = htons( static_cast<in_port_t>( static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt() ) );
 #endif
 
 		return connect(param_sockfd, (sockaddr *) &serv_addr, sizeof(serv_addr));
-- 
2.43.0


From df190eadee315ae62d8065a22db039040e20e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:55 +0000
Subject: [PATCH 133/154] fix: values are read completely if they arrive in
 several pieces

---
 Projects/Extensions/System/Network/Read.h | 27 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/Projects/Extensions/System/Network/Read.h b/Projects/Extensions/System/Network/Read.h
index 0b0fa2c..83fd09a 100644
--- a/Projects/Extensions/System/Network/Read.h
+++ b/Projects/Extensions/System/Network/Read.h
@@ -19,6 +19,25 @@ namespace System {
 namespace Network {
 
 
+// data may arrive in several pieces
+inline long readCompletely( int handle, void* data, size_t length )
+{
+	size_t count = 0;
+	while ( count < length ) {
+		long size = read(handle, static_cast<char*>( data ) + count, length - count);
+		if ( size == -1 ) {    // error while reading
+			return -1;
+		}
+		if ( size == 0 ) {    // EOF reached
+			break;
+		}
+
+		count += static_cast<size_t>( size );
+	}
+
+	return static_cast<long>( count );
+}
+
 class ReadBool : public ExtensionMethod
 {
 public:
@@ -41,7 +60,7 @@ public:
 
 		bool value = false;
 
-		long size = read(param_handle, &value, sizeof(bool));
+		long size = readCompletely(param_handle, &value, sizeof(bool));
 		if ( size == -1 ) {    // error while reading
 			throw Runtime::Exceptions::RuntimeException("error while reading handle");
 		}
@@ -75,7 +94,7 @@ public:
 
 		double value = 0.0;
 
-		long size = read(param_handle, &value, sizeof(double));
+		long size = readCompletely(param_handle, &value, sizeof(double));
 		if ( size == -1 ) {    // error while reading
 			throw Runtime::Exceptions::RuntimeException("error while reading handle");
 		}
@@ -109,7 +128,7 @@ public:
 
 		float value = 0.f;
 
-		long size = read(param_handle, &value, sizeof(float));
+		long size = readCompletely(param_handle, &value, sizeof(float));
 		if ( size == -1 ) {    // error while reading
 			throw Runtime::Exceptions::RuntimeException("error while reading handle");
 		}
@@ -143,7 +162,7 @@ public:
 
 		int value = 0;
 
-		long size = read(param_handle, &value, sizeof(int));
+		long size = readCompletely(param_handle, &value, sizeof(int));
 		if ( size == -1 ) {    // error while reading
 			throw Runtime::Exceptions::RuntimeException("error while reading handle");
 		}
-- 
2.43.0


From 7c7e7dfbdeba640d0cff864e423ff1724869283a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:55 +0000
Subject: [PATCH 134/154] fix: ServerSocket.Bind reports success

---
 Projects/Library/System/Network/ServerSocket.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/System/Network/ServerSocket.os b/Projects/Library/System/Network/ServerSocket.os
index 9152345..b54ec78 100644
--- a/Projects/Library/System/Network/ServerSocket.os
+++ b/Projects/Library/System/Network/ServerSocket.os
@@ -74,7 +74,7 @@ public object ServerSocket {
 			throw new Exception("endpoint not set");
 		}
 
-		return bind(mMasterSocket, ISocketAddress mEndpoint) > 0;
+		return bind(mMasterSocket, ISocketAddress mEndpoint) == 0;
 	}
 
 	/*
-- 
2.43.0


From c45844056650d730a91f5a4fae3d5b03bd48d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:55 +0000
Subject: [PATCH 135/154] fix: IPv6 addresses do not fit into the address
 structure used for them

---
 Projects/Extensions/System/Network/Bind.h    | 11 +++++++++--
 Projects/Extensions/System/Network/Connect.h | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/Projects/Extensions/System/Network/Bind.h b/Projects/Extensions/System/Network/Bind.h
index 266d3c6..d711b47 100644
--- a/Projects/Extensions/System/Network/Bind.h
+++ b/Projects/Extensions/System/Network/Bind.h
@@ -86,8 +86,15 @@ private:
 #ifdef _MSC_VER
 #else
 			case AF_INET6: {
-				serv_addr.sin_family = AF_INET6;
-			} break;
+				sockaddr_in6 serv_addr6 = {};
+				serv_addr6.sin6_family = AF_INET6;
+
+				inet_pton(AF_INET6, static_cast<Runtime::StringType*>( addressSymbol )->getValue().toStdString().c_str(), &serv_addr6.sin6_addr);
+
+				serv_addr6.sin6_port = htons( static_cast<in_port_t>( static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt() ) );
+
+				return bind(param_sockfd, (sockaddr *) &serv_addr6, sizeof(serv_addr6));
+			}
 #endif
 			default:
 				throw Common::Exceptions::Exception("unsupported socket address type provided!");
diff --git a/Projects/Extensions/System/Network/Connect.h b/Projects/Extensions/System/Network/Connect.h
index c94ba8b..6a212f1 100644
--- a/Projects/Extensions/System/Network/Connect.h
+++ b/Projects/Extensions/System/Network/Connect.h
@@ -81,8 +81,15 @@ private:
 #ifdef _MSC_VER
 #else
 			case AF_INET6: {
-				serv_addr.sin_family = AF_INET6;
-			} break;
+				sockaddr_in6 serv_addr6 = {};
+				serv_addr6.sin6_family = AF_INET6;
+
+				inet_pton(AF_INET6, static_cast<Runtime::StringType*>( addressSymbol )->getValue().toStdString().c_str(), &serv_addr6.sin6_addr);
+
+				serv_addr6.sin6_port = htons( static_cast<in_port_t>( static_cast<Runtime::Int32Type*>( portSymbol )->getValue().toInt() ) );
+
+				return connect(param_sockfd, (sockaddr *) &serv_addr6, sizeof(serv_addr6));
+			}
 #endif
 			default:
 				throw Common::Exceptions::Exception("unsupported socket address type provided!");
-- 
2.43.0


From 469cbad291d6a60d64aa75431a2f28eb0fd4e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:42 +0000
Subject: [PATCH 136/154] fix: JSON builders escape quotes and backslashes

---
 Projects/Library/libJsonBuilder/Builder.os    | 15 +++++++------
 Projects/Library/libJsonBuilder/Escape.os     | 19 +++++++++++++++++
 .../libJsonBuilder/StructuredBuilder.os       | 21 +++++++++++--------
 .../Library/libJsonBuilder/StyledBuilder.os   | 19 ++++++++++-------
 4 files changed, 51 insertions(+), 23 deletions(-)
 create mode 100644 Projects/Library/libJsonBuilder/Escape.os

diff --git a/Projects/Library/libJsonBuilder/Builder.os b/Projects/Library/libJsonBuilder/Builder.os
index a45d4d2..09ede86 100644
--- a/Projects/Library/libJsonBuilder/Builder.os
+++ b/Projects/Library/libJsonBuilder/Builder.os
@@ -1,4 +1,7 @@
 
+import Escape;
+
+
 private namespace Json {
 
 public object Builder {
@@ -11,7 +14,7 @@ public object Builder {
 		}
 
 		mIsFirstElement = false;
-		mValue += "\"" + key + "\": " + value;
+		mValue += "\"" + Escape( key ) + "\": " + value;
 	}
 
 	public void addElement(string key, int value) modify {
@@ -20,7 +23,7 @@ public object Builder {
 		}
 	
 		mIsFirstElement = false;
-		mValue += "\"" + key + "\": " + value;
+		mValue += "\"" + Escape( key ) + "\": " + value;
 	}
 
 	public void addElement(string key, string value) modify {
@@ -29,7 +32,7 @@ public object Builder {
 		}
 
 		mIsFirstElement = false;
-		mValue += "\"" + key + "\": \"" + value + "\"";
+		mValue += "\"" + Escape( key ) + "\": \"" + Escape( value ) + "\"";
 	}
 
 	public void addValue(bool value) modify {
@@ -56,7 +59,7 @@ public object Builder {
 		}
 
 		mIsFirstElement = false;
-		mValue += "\"" + value + "\"";
+		mValue += "\"" + Escape( value ) + "\"";
 	}
 
 	public void beginArray() modify {
@@ -74,7 +77,7 @@ public object Builder {
 		}
 
 		mIsFirstElement = true;
-		mValue += "\"" + key + "\": [";
+		mValue += "\"" + Escape( key ) + "\": [";
 	}
 
 	public void beginObject() modify {
@@ -92,7 +95,7 @@ public object Builder {
 		}
 
 		mIsFirstElement = true;
-		mValue += "\"" + key + "\": {";
+		mValue += "\"" + Escape( key ) + "\": {";
 	}
 
 	public void endArray() modify {
diff --git a/Projects/Library/libJsonBuilder/Escape.os b/Projects/Library/libJsonBuilder/Escape.os
new file mode 100644
index 0000000..8cdc0b0
--- /dev/null
+++ b/Projects/Library/libJsonBuilder/Escape.os
@@ -0,0 +1,19 @@
+
+private namespace Json {
+
+// returns the text with escaped quotes and backslashes
+public string Escape(string text) {
+	string result;
+
+	int size const = strlen( text );
+	for ( int i = 0; i < size; i++ ) {
+		string c = substr( text, i, 1 );
+
+		result += ( ( c == "\"" || c == "\\" ) ? "\\" + c : c );
+	}
+
+	return result;
+}
+
+}
+
diff --git a/Projects/Library/libJsonBuilder/StructuredBuilder.os b/Projects/Library/libJsonBuilder/StructuredBuilder.os
index b158ceb..7673799 100644
--- a/Projects/Library/libJsonBuilder/StructuredBuilder.os
+++ b/Projects/Library/libJsonBuilder/StructuredBuilder.os
@@ -1,4 +1,7 @@
 
+import Escape;
+
+
 private namespace Json {
 
 private bool mIsFirstElement = true;
@@ -11,7 +14,7 @@ public void AddElement(string key, bool value) {
 	}
 
 	mIsFirstElement = false;
-	mValue += "\"" + key + "\": " + value;
+	mValue += "\"" + Escape( key ) + "\": " + value;
 }
 
 public void AddElement(string key, double value) {
@@ -20,7 +23,7 @@ public void AddElement(string key, double value) {
 	}
 
 	mIsFirstElement = false;
-	mValue += "\"" + key + "\": " + value;
+	mValue += "\"" + Escape( key ) + "\": " + value;
 }
 
 public void AddElement(string key, float value) {
@@ -29,7 +32,7 @@ public void AddElement(string key, float value) {
 	}
 
 	mIsFirstElement = false;
-	mValue += "\"" + key + "\": " + value;
+	mValue += "\"" + Escape( key ) + "\": " + value;
 }
 
 public void AddElement(string key, int value) {
@@ -38,7 +41,7 @@ public void AddElement(string key, int value) {
 	}
 
 	mIsFirstElement = false;
-	mValue += "\"" + key + "\": " + value;
+	mValue += "\"" + Escape( key ) + "\": " + value;
 }
 
 public void AddElement(string key, string value) {
@@ -47,7 +50,7 @@ public void AddElement(string key, string value) {
 	}
 
 	mIsFirstElement = false;
-	mValue += "\"" + key + "\": \"" + value + "\"";
+	mValue += "\"" + Escape( key ) + "\": \"" + Escape( value ) + "\"";
 }
 
 public void AddValue(bool value) {
@@ -92,7 +95,7 @@ public void AddValue(string value) {
 	}
 
 	mIsFirstElement = false;
-	mValue += "\"" + value + "\"";
+	mValue += "\"" + Escape( value ) + "\"";
 }
 
 public void AddObject(string value) {
@@ -110,7 +113,7 @@ public void AddObject(string key, string value) {
 	}
 
 	mIsFirstElement = false;
-	mValue += "\"" + key + "\": " + value;
+	mValue += "\"" + Escape( key ) + "\": " + value;
 }
 
 public void BeginArray() {
@@ -128,7 +131,7 @@ public void BeginArray(string key) {
 	}
 
 	mIsFirstElement = true;
-	mValue += "\"" + key + "\": [";
+	mValue += "\"" + Escape( key ) + "\": [";
 }
 
 public void BeginObject() {
@@ -146,7 +149,7 @@ public void BeginObject(string key) {
 	}
 
 	mIsFirstElement = true;
-	mValue += "\"" + key + "\": {";
+	mValue += "\"" + Escape( key ) + "\": {";
 }
 
 public void EndArray() {
diff --git a/Projects/Library/libJsonBuilder/StyledBuilder.os b/Projects/Library/libJsonBuilder/StyledBuilder.os
index b50904b..0e0669e 100644
--- a/Projects/Library/libJsonBuilder/StyledBuilder.os
+++ b/Projects/Library/libJsonBuilder/StyledBuilder.os
@@ -1,4 +1,7 @@
 
+import Escape;
+
+
 private namespace Json {
 
 public object StyledBuilder {
@@ -19,7 +22,7 @@ public object StyledBuilder {
 		indent();
 
 		mIsFirstElement = false;
-		mValue += "\"" + key + "\": " + value;
+		mValue += "\"" + Escape( key ) + "\": " + value;
 	}
 
 	public void addElement(string key, double value) modify {
@@ -30,7 +33,7 @@ public object StyledBuilder {
 		indent();
 
 		mIsFirstElement = false;
-		mValue += "\"" + key + "\": " + value;
+		mValue += "\"" + Escape( key ) + "\": " + value;
 	}
 
 	public void addElement(string key, float value) modify {
@@ -41,7 +44,7 @@ public object StyledBuilder {
 		indent();
 
 		mIsFirstElement = false;
-		mValue += "\"" + key + "\": " + value;
+		mValue += "\"" + Escape( key ) + "\": " + value;
 	}
 
 	public void addElement(string key, int value) modify {
@@ -52,7 +55,7 @@ public object StyledBuilder {
 		indent();
 
 		mIsFirstElement = false;
-		mValue += "\"" + key + "\": " + value;
+		mValue += "\"" + Escape( key ) + "\": " + value;
 	}
 
 	public void addElement(string key, string value) modify {
@@ -63,7 +66,7 @@ public object StyledBuilder {
 		indent();
 
 		mIsFirstElement = false;
-		mValue += "\"" + key + "\": \"" + value + "\"";
+		mValue += "\"" + Escape( key ) + "\": \"" + Escape( value ) + "\"";
 	}
 
 	public void addValue(bool value) modify {
@@ -90,7 +93,7 @@ public object StyledBuilder {
 		}
 
 		mIsFirstElement = false;
-		mValue += "\"" + value + "\"";
+		mValue += "\"" + Escape( value ) + "\"";
 	}
 
 	public void beginArray() modify {
@@ -114,7 +117,7 @@ public object StyledBuilder {
 
 		mIndentationLevel++;
 		mIsFirstElement = true;
-		mValue += "\"" + key + "\": [" + ascii(10);
+		mValue += "\"" + Escape( key ) + "\": [" + ascii(10);
 	}
 
 	public void beginObject() modify {
@@ -138,7 +141,7 @@ public object StyledBuilder {
 
 		mIndentationLevel++;
 		mIsFirstElement = true;
-		mValue += "\"" + key + "\": {" + ascii(10);
+		mValue += "\"" + Escape( key ) + "\": {" + ascii(10);
 	}
 
 	public void endArray() modify {
-- 
2.43.0


From b8901e96242d687feaddc444a9013b5348c5e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:55:21 +0000
Subject: [PATCH 137/154] fix: output pending at a fork is written twice

---
 Projects/Extensions/System/Fork.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Extensions/System/Fork.h b/Projects/Extensions/System/Fork.h
index 7036b24..257f87a 100644
--- a/Projects/Extensions/System/Fork.h
+++ b/Projects/Extensions/System/Fork.h
@@ -4,6 +4,7 @@
 
 
 // Library includes
+#include <iostream>
 #include <unistd.h>
 
 // Project includes
@@ -34,6 +35,9 @@ public:
 public:
 	Runtime::ControlFlow::E execute( const ParameterList& /*params*/, Runtime::Object* result )
 	{
+		// otherwise the child would write pending output again
+		std::cout.flush();
+
 		*result = Runtime::Int32Type(fork());
 
 		return Runtime::ControlFlow::Normal;
-- 
2.43.0


From 7738aca708b29b243e9f640bb633ca5c28f82aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:13:19 +0000
Subject: [PATCH 138/154] fix: objects held by inherited members are never
 destroyed

---
 Projects/Core/Core/Object.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Projects/Core/Core/Object.cpp b/Projects/Core/Core/Object.cpp
index ffa854a..c8b09cb 100644
--- a/Projects/Core/Core/Object.cpp
+++ b/Projects/Core/Core/Object.cpp
@@ -57,6 +57,15 @@ Object::~Object()
 	if ( this != mThis ) {
 		Controller::Instance().memory()->remove(mReference);
 	}
+
+	// release our base object together with the members inherited from it
+	auto baseIt = mSymbols.find(IDENTIFIER_BASE);
+	if ( baseIt != mSymbols.end() ) {
+		auto* base = baseIt->second;
+		mSymbols.erase(baseIt);
+
+		delete base;
+	}
 }
 
 Object& Object::operator= (const Object& other)
-- 
2.43.0


From b99d0e3b09f6aa2bf51582e540002949d415e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:17:48 +0000
Subject: [PATCH 139/154] fix: appending file logger keeps the existing log

---
 Projects/Library/libLog/Context.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/libLog/Context.os b/Projects/Library/libLog/Context.os
index 7d3c24e..1d7d555 100644
--- a/Projects/Library/libLog/Context.os
+++ b/Projects/Library/libLog/Context.os
@@ -8,7 +8,7 @@ import IContext;
 
 public object FileContext implements IContext {
 	public void Constructor(string filename, bool append = false) {
-		mFile = new System.IO.File(filename, append ? System.IO.File.AccessMode.WriteUpdate : System.IO.File.AccessMode.WriteOnly);
+		mFile = new System.IO.File(filename, append ? System.IO.File.AccessMode.Append : System.IO.File.AccessMode.WriteOnly);
 	}
 
 	public void Destructor() {
-- 
2.43.0


From 162816d9a17d27a4866f70389acc646f3b2e4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:17:48 +0000
Subject: [PATCH 140/154] fix: variables of a base or interface type can be
 bound to objects of another class

---
 Projects/Core/Core/Runtime/OperatorOverloading.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Runtime/OperatorOverloading.cpp b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
index 52f3343..eca0424 100644
--- a/Projects/Core/Core/Runtime/OperatorOverloading.cpp
+++ b/Projects/Core/Core/Runtime/OperatorOverloading.cpp
@@ -99,7 +99,8 @@ void operator_binary_assign( Object* lvalue, Object* rvalue )
 			return;
 		}
 
-		if ( rvalue->isInstanceOf( lvalue->QualifiedTypename() ) ) {
+		// our current value may be more specific than our declared type
+		if ( rvalue->isInstanceOf( lvalue->QualifiedTypename() ) || rvalue->isInstanceOf( lvalue->QualifiedOuterface() ) ) {
 			lvalue->assign( *rvalue );
 			return;
 		}
-- 
2.43.0


From 60c227df9bc2c6c1f12f6961a38e70605a8873c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:18:37 +0000
Subject: [PATCH 141/154] fix: forcing decorators never tick their child

---
 Projects/Library/libBehaviourTree/Decorator.os | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Library/libBehaviourTree/Decorator.os b/Projects/Library/libBehaviourTree/Decorator.os
index 5ea9e19..4bd6686 100644
--- a/Projects/Library/libBehaviourTree/Decorator.os
+++ b/Projects/Library/libBehaviourTree/Decorator.os
@@ -33,6 +33,8 @@ public object ForceFailureDecorator extends Decorator {
     public override NodeStatus tick() modify {
         print( "ForceFailureDecorator: " + Name );
 
+        Status = Child.tick();
+
         if ( Status == NodeStatus.Running || Status == NodeStatus.Waiting ) {
             return Status;
         }
@@ -49,6 +51,8 @@ public object ForceSuccessDecorator extends Decorator {
     public override NodeStatus tick() modify {
         print( "ForceSuccessDecorator: " + Name );
 
+        Status = Child.tick();
+
         if ( Status == NodeStatus.Running || Status == NodeStatus.Waiting ) {
             return Status;
         }
-- 
2.43.0


From 87dce68f57e7a4512c2f6b2d3c0f9bf5ea3647ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:23:38 +0000
Subject: [PATCH 142/154] fix: dependency checker converts versions that are
 not given

---
 Projects/Library/DependencyChecker/Main.slang | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/DependencyChecker/Main.slang b/Projects/Library/DependencyChecker/Main.slang
index fb15976..50ea527 100755
--- a/Projects/Library/DependencyChecker/Main.slang
+++ b/Projects/Library/DependencyChecker/Main.slang
@@ -103,7 +103,7 @@ public object Module
 
         foreach ( Dependency d : Dependencies ) {
             dependencies += "{ "
-                + d.Name + ": " + cast<string>( d.VersionMin ) + "-" + cast<string>( d.VersionMax )
+                + d.Name + ": " + ( d.VersionMin ? cast<string>( d.VersionMin ) : "" ) + "-" + ( d.VersionMax ? cast<string>( d.VersionMax ) : "" )
                 + " }";
         }
 
-- 
2.43.0


From e6795ea3d0945cd7284449435704c1ce08fc0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:32 +0000
Subject: [PATCH 143/154] fix: words behind integer literals are silently
 ignored

---
 Projects/Core/Core/Designtime/Parser/Tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
index 4526990..4f14858 100644
--- a/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
+++ b/Projects/Core/Core/Designtime/Parser/Tokenizer.cpp
@@ -860,7 +860,7 @@ void Tokenizer::replaceConstDataTypesPatternMatching()
 						patternIt->resetContentTo( "" );
 						opToken->resetTypeTo( Token::Type::CONST_FLOAT );
 					}
-					else if ( patternIt->content() == "i" ) {
+					else {
 						throw Designtime::Exceptions::SyntaxError( "invalid number format", patternIt->position() );
 					}
 				}
-- 
2.43.0


From f700e6b9d6068de4b49f3184ea5243347b3363cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:07:55 +0000
Subject: [PATCH 144/154] fix: text between an argument and the next comma is
 silently ignored

---
 Projects/Core/Core/AST/TreeGenerator.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 93a87e5..7cf37cf 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1666,10 +1666,7 @@ MethodExpression* TreeGenerator::process_method(SymbolExpression* symbol, TokenI
 		if ( std::distance(tmp, closed) <= 0 ) {
 			break;
 		}
-		tmp = findNext(tmp, Token::Type::COMMA);
-		if ( std::distance(tmp, closed) < 0 ) {
-			break;
-		}
+		expect(Token::Type::COMMA, tmp);
 		tmp++;
 	}
 
-- 
2.43.0


From 9b273b902fe62962ad4f871c35d3ce7ff8deaa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:38:43 +0000
Subject: [PATCH 145/154] fix: replicas of derived classes are not prepared
 like their originals

---
 .../Core/Core/Designtime/BluePrintObject.cpp  |  5 +++
 .../Core/Core/VirtualMachine/Repository.cpp   | 38 +++++++++++++++++--
 .../Core/Core/VirtualMachine/Repository.h     |  3 ++
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/Projects/Core/Core/Designtime/BluePrintObject.cpp b/Projects/Core/Core/Designtime/BluePrintObject.cpp
index 582dc66..fe4687d 100644
--- a/Projects/Core/Core/Designtime/BluePrintObject.cpp
+++ b/Projects/Core/Core/Designtime/BluePrintObject.cpp
@@ -351,6 +351,11 @@ void BluePrintObject::prepareParents(Repository* repository)
 	mIsPreparing = true;
 
 	for ( const auto& it : mInheritance ) {
+		if ( it.ancestorType() == Ancestor::Type::Replicates ) {
+			// a replica has its own copy of everything
+			continue;
+		}
+
 		BluePrintObject* parent = repository->findBluePrintObject(it.typeDeclaration());
 
 		if ( !parent ) {
diff --git a/Projects/Core/Core/VirtualMachine/Repository.cpp b/Projects/Core/Core/VirtualMachine/Repository.cpp
index 5302019..1437d99 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.cpp
+++ b/Projects/Core/Core/VirtualMachine/Repository.cpp
@@ -472,11 +472,45 @@ void Repository::init()
 	}
 }
 
+/*
+ * turns a blueprint into the replica of another one (unless this has already been done)
+ */
+void Repository::replicateBluePrint(Designtime::BluePrintObject* blueprint, std::set<Designtime::BluePrintObject*>& replicated)
+{
+	if ( !replicated.insert(blueprint).second ) {
+		return;
+	}
+
+	Designtime::Ancestors ancestors = blueprint->getInheritance();
+	for ( const auto& ancestor : ancestors ) {
+		if ( ancestor.ancestorType() != Designtime::Ancestor::Type::Replicates ) {
+			continue;
+		}
+
+		prepareType(Common::TypeDeclaration(ancestor.name(), ancestor.constraints()));
+
+		auto* base = findBluePrintObject(
+			Designtime::Parser::buildRuntimeConstraintTypename(ancestor.name(), ancestor.constraints())
+		);
+
+		// our original might be a replica, too
+		replicateBluePrint(base, replicated);
+
+		base->replicate(blueprint->QualifiedTypename(), blueprint->Filename(), blueprint);
+	}
+}
+
 /*
  * this allows asyncronous initialization of blueprints so that the order of imports does not matter
  */
 void Repository::initializeBlueprints()
 {
+	// replicate first, so that replicas are prepared in the same way as their originals
+	std::set<Designtime::BluePrintObject*> replicated;
+	for ( auto& blueprintIt : mBluePrintObjects ) {
+		replicateBluePrint(blueprintIt.second, replicated);
+	}
+
 	// prepare inheritance
 	for ( auto& blueprintIt : mBluePrintObjects) {
 		auto* blueprint = blueprintIt.second;
@@ -512,9 +546,7 @@ void Repository::initializeBlueprints()
 					// nothing to do here
 				} break;
 				case Designtime::Ancestor::Type::Replicates: {
-					blueprintIt.second = base->replicate(
-						blueprint->QualifiedTypename(), blueprint->Filename(), blueprintIt.second
-					);
+					// already done
 				} break;
 				case Designtime::Ancestor::Type::Unknown:
 					throw Common::Exceptions::Exception("invalid inheritance detected");
diff --git a/Projects/Core/Core/VirtualMachine/Repository.h b/Projects/Core/Core/VirtualMachine/Repository.h
index 1389929..34471bc 100644
--- a/Projects/Core/Core/VirtualMachine/Repository.h
+++ b/Projects/Core/Core/VirtualMachine/Repository.h
@@ -5,6 +5,7 @@
 
 // Library includes
 #include <map>
+#include <set>
 #include <string>
 
 // Project includes
@@ -79,6 +80,8 @@ private:
 	void initAncestorTypes(const Designtime::BluePrintObject* blueprint, const std::string& type);
 	void initTypeSystem(Designtime::BluePrintObject* blueprint);
 
+	void replicateBluePrint(Designtime::BluePrintObject* blueprint, std::set<Designtime::BluePrintObject*>& replicated);
+
 private:
 	BluePrintObjectMap mBluePrintObjects;
 };
-- 
2.43.0


From 84ed2c5fb49afb8ba6bab4f82b3cc7dc1af5a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:01:33 +0000
Subject: [PATCH 146/154] fix: BASIC programs with empty lines or an unusual
 last line are refused

The last line may be a comment and does not have to end with a linebreak. Most
of the example programs could not be run.
---
 Projects/Library/Basic-Token/Parser.os    | 10 +++++++---
 Projects/Library/Basic-Token/Tokenizer.os |  6 +++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/Projects/Library/Basic-Token/Parser.os b/Projects/Library/Basic-Token/Parser.os
index da21315..e3521bf 100644
--- a/Projects/Library/Basic-Token/Parser.os
+++ b/Projects/Library/Basic-Token/Parser.os
@@ -45,6 +45,11 @@ public object Parser {
 		Line previousLine;
 
 		while ( mTokenIterator.hasNext() ) {
+			if ( peek().mType == TokenType.LINEBREAK ) {
+				consume();	// skip empty lines
+				continue;
+			}
+
 			var line = parseLine();
 			if ( !line ) {
 				// ignore invalid lines (mostly shebangs ;-)
@@ -315,9 +320,8 @@ public object Parser {
 		// ignore everything on this line
 		string comment;
 
-		Token token;
-		while ( (token = consume()).mType != TokenType.LINEBREAK ) {
-			comment += token.mValue + " ";
+		while ( peek().mType != TokenType.LINEBREAK ) {
+			comment += consume().mValue + " ";
 		}
 
 		return new RemStatement(comment);
diff --git a/Projects/Library/Basic-Token/Tokenizer.os b/Projects/Library/Basic-Token/Tokenizer.os
index 3b9e053..f30bf6d 100644
--- a/Projects/Library/Basic-Token/Tokenizer.os
+++ b/Projects/Library/Basic-Token/Tokenizer.os
@@ -62,6 +62,9 @@ public object Tokenizer {
 			tokens.push_back(token);
 		}
 
+		// the last line does not have to be terminated
+		tokens.push_back(new Token(TokenType.LINEBREAK, "", getCurrentPos()));
+
 		return tokens;
 	}
 
@@ -93,7 +96,8 @@ public object Tokenizer {
 	private Token getDigit() modify {
 		string result;
 
-		while ( isDigit(peek()) ) {
+		string c;
+		while ( (c = peek()) && isDigit(c) ) {
 			result += consume();
 		}
 
-- 
2.43.0


From 0569c6a0905aaf101a9ba82d7564368cb5836b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:01:33 +0000
Subject: [PATCH 147/154] fix: BASIC statements behind DIM on the same line are
 not found

Parsing DIM consumed the colon that follows it.
---
 Projects/Library/Basic-Token/Parser.os | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Projects/Library/Basic-Token/Parser.os b/Projects/Library/Basic-Token/Parser.os
index e3521bf..5910b83 100644
--- a/Projects/Library/Basic-Token/Parser.os
+++ b/Projects/Library/Basic-Token/Parser.os
@@ -193,9 +193,7 @@ public object Parser {
 			exp = expression();
 		}
 
-		var stmt = new DimStatement(variable.mValue, exp);
-		consume();
-		return stmt;
+		return new DimStatement(variable.mValue, exp);
 	}
 
 	private EndStatement parseEND() modify throws {
-- 
2.43.0


From 7c8590b1c70ede745f893c1bc17af231afbf7810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:01:33 +0000
Subject: [PATCH 148/154] fix: FOR without STEP fails in BASIC programs

The loop variable is increased by 1 if no step is given.
---
 Projects/Library/Basic-Token/Parser.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/Basic-Token/Parser.os b/Projects/Library/Basic-Token/Parser.os
index 5910b83..ef22794 100644
--- a/Projects/Library/Basic-Token/Parser.os
+++ b/Projects/Library/Basic-Token/Parser.os
@@ -224,7 +224,7 @@ public object Parser {
 
 		Expression toExp = expression(); 
 
-		Expression stepExp;
+		Expression stepExp = Expression new ConstNumberExpression( 1f );
 		if ( peek().mType == TokenType.STEP ) {
 			consume();	// consume STEP token
 
-- 
2.43.0


From 45b905f839a548c0d1d8baa3e3447a9bd931bfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:01:33 +0000
Subject: [PATCH 149/154] fix: the letter Q is not allowed in names of BASIC
 programs

---
 Projects/Library/Basic-Token/Tokenizer.os | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Projects/Library/Basic-Token/Tokenizer.os b/Projects/Library/Basic-Token/Tokenizer.os
index f30bf6d..3c1a52e 100644
--- a/Projects/Library/Basic-Token/Tokenizer.os
+++ b/Projects/Library/Basic-Token/Tokenizer.os
@@ -11,7 +11,7 @@ import Token;
 
 public object Tokenizer {
 	public void Constructor() {
-		CHARS = new String("ABCDEFGHIJKLMNOPRSTUVWXYZabcdefghijklmnoprstuvwxyz_");
+		CHARS = new String("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_");
 		DIGITS = new String("0123456789");
 		OPERATORCHARS = new String("+-*/%<>=");
 
-- 
2.43.0


From 899e455710297b37cc415fedaf3570a2b4013b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:01:33 +0000
Subject: [PATCH 150/154] fix: signs inside of BASIC expressions are not
 evaluated

A sign was written in front of the value, even in front of a negative one,
and expressions with a sign could not be part of another expression.
---
 Projects/Library/Basic-Token/Expressions.os | 8 ++++++++
 Projects/Library/Basic-Token/Interpreter.os | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/Projects/Library/Basic-Token/Expressions.os b/Projects/Library/Basic-Token/Expressions.os
index 087991a..abca8d1 100644
--- a/Projects/Library/Basic-Token/Expressions.os
+++ b/Projects/Library/Basic-Token/Expressions.os
@@ -187,6 +187,14 @@ public object UnaryExpression extends Expression {
 		mOperator   = op;
 	}
 
+	public bool isString() const {
+		return mExpression.isString();
+	}
+
+	public string toPrettyString() const {
+		return mOperator + mExpression.toPrettyString();
+	}
+
 	public string toString() const {
 		return "UnaryExpression( " + mOperator + "', " + mExpression.toString() + " )";
 	}
diff --git a/Projects/Library/Basic-Token/Interpreter.os b/Projects/Library/Basic-Token/Interpreter.os
index dce971e..0ae6519 100644
--- a/Projects/Library/Basic-Token/Interpreter.os
+++ b/Projects/Library/Basic-Token/Interpreter.os
@@ -306,7 +306,13 @@ public object Interpreter {
 	private string processUnaryExpression(UnaryExpression exp) const throws {
 		//print("processUnaryExpression(" + exp.toString() + ")");
 
-		return exp.mOperator + processExpression(exp.mExpression);
+		string value = processExpression(exp.mExpression);
+
+		if ( exp.mOperator == "-" ) {
+			return "" + (0f - (float value));
+		}
+
+		return value;
 	}
 
 	private string processVariableExpression(VariableExpression exp) const throws {
-- 
2.43.0


From 7ea98085ae00c323d6f5c6a5c4b9076297eb27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:01:33 +0000
Subject: [PATCH 151/154] fix: AND and OR are not evaluated in BASIC programs

---
 Projects/Library/Basic-Token/Interpreter.os | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Projects/Library/Basic-Token/Interpreter.os b/Projects/Library/Basic-Token/Interpreter.os
index 0ae6519..a20257d 100644
--- a/Projects/Library/Basic-Token/Interpreter.os
+++ b/Projects/Library/Basic-Token/Interpreter.os
@@ -236,17 +236,25 @@ public object Interpreter {
 			case "<>": {
 				return "" + (left != right);
 			}
+			case "AND": {
+				return "" + (isTrue(left) && isTrue(right));
+			}
+			case "OR": {
+				return "" + (isTrue(left) || isTrue(right));
+			}
 		}
 
 		throw "invalid binary operator '" + exp.mOperator + "'!";
 	}
 
+	private bool isTrue(string value) const {
+		return value && value != "0";
+	}
+
 	private bool processBooleanExpression(Expression exp) const {
 		//print("processBooleanExpression(" + exp.toString() + ")");
 
-		string result = processExpression(exp);
-
-		return result && result != "0";
+		return isTrue(processExpression(exp));
 	}
 
 	private string processConstNumberExpression(ConstNumberExpression exp) const {
-- 
2.43.0


From 0b909e78f3e4afbc6aab50526a419921b734c20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:19:43 +0000
Subject: [PATCH 152/154] fix: delete does not release the object of its
 variable

The variable kept its object, so that its destructor was not executed and the
variable was not null afterwards. Constant variables are left alone.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 975de87..6aeb700 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1111,6 +1111,15 @@ void TreeInterpreter::visitDelete(DeleteStatement* node)
 	Runtime::Object obj;
 	tryControl(evaluate(node->mExpression, &obj));
 
+	// let the variable give up its object
+	auto* symbol = dynamic_cast<SymbolExpression*>(node->mExpression);
+	if ( symbol ) {
+		auto* variable = dynamic_cast<Runtime::Object*>(resolveRValue(getScope(), symbol, false, Visibility::Designtime));
+		if ( variable && !variable->isConst() && variable->getThis() != variable ) {
+			variable->assign(Runtime::Object());
+		}
+	}
+
 	obj = Runtime::Object();
 }
 
-- 
2.43.0


From d9572c0e9076177cc232edde83e6b84ee84929a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:19:43 +0000
Subject: [PATCH 153/154] fix: abandoned return values are kept until the end
 of the function

A return statement is abandoned by a finally block that throws, breaks or
continues.
---
 Projects/Core/Core/AST/TreeInterpreter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeInterpreter.cpp b/Projects/Core/Core/AST/TreeInterpreter.cpp
index 6aeb700..901ff92 100644
--- a/Projects/Core/Core/AST/TreeInterpreter.cpp
+++ b/Projects/Core/Core/AST/TreeInterpreter.cpp
@@ -1491,6 +1491,10 @@ void TreeInterpreter::visitTry(TryStatement* node)
 			mFrame->returnValue() = tmpReturnValue;
 		}
 	}
+	else if ( tmpControlFlow == Runtime::ControlFlow::Return && mControlFlow != Runtime::ControlFlow::Return ) {
+		// the pending return statement has been abandoned
+		mFrame->returnValue() = Runtime::Object();
+	}
 
 	// our own exception has been handled, so a surrounding catch-block gets its exception back
 	if ( mControlFlow != Runtime::ControlFlow::ExitProgram && mControlFlow != Runtime::ControlFlow::Throw ) {
-- 
2.43.0


From 52554fa42e71a9c264efe462fad745f544b7077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:34:48 +0000
Subject: [PATCH 154/154] fix: constant objects and members can be deleted

A delete statement releases the object of its variable, so it is a
modification.  It was accepted for constants, for members of constant
objects and for members inside const methods.
---
 Projects/Core/Core/AST/TreeGenerator.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Projects/Core/Core/AST/TreeGenerator.cpp b/Projects/Core/Core/AST/TreeGenerator.cpp
index 7cf37cf..0aaa821 100644
--- a/Projects/Core/Core/AST/TreeGenerator.cpp
+++ b/Projects/Core/Core/AST/TreeGenerator.cpp
@@ -1229,6 +1229,14 @@ Statement* TreeGenerator::process_delete(TokenIterator& token)
 
 	Node* exp = expression(token);
 
+	auto* symbol = dynamic_cast<SymbolExpression*>(exp);
+	if ( symbol && symbol->isMember() && mMethod->isConstMethod() ) {
+		throw Common::Exceptions::ConstCorrectnessViolated("tried to delete member symbol '" + symbol->innerName() + "' in const method", start.position());
+	}
+	if ( symbol && symbol->isConst() && !(mAllowConstModify && symbol->isMember()) ) {
+		throw Common::Exceptions::ConstCorrectnessViolated("tried to delete const symbol '" + symbol->innerName() + "'", start.position());
+	}
+
 	expect(Token::Type::SEMICOLON, token);
 	++token;
 
-- 
2.43.0

