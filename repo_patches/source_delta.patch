From c04e6736ca906bad94d093fb34ca962040d334b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:28 +0000
Subject: [PATCH 01/58] fix: accept only numbers of the RFC 8259 grammar

Texts such as 1.2.3, 1-2, 1e, 1., .5, +5 and '- 5' were accepted, since every
run of number characters was handed to strtod and its rest ignored; 0e5 was
refused as having a leading zero.
---
 Code/Json4C4/C4Json.cpp | 59 ++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 4181333..a63de86 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -622,15 +622,51 @@ namespace C4
 
         int32 ComputeFloatLiteralLength( const char* text ) noexcept
         {
-            const uint8* byte = reinterpret_cast<const uint8*>( text );
+            const auto skipDigits = []( const char*& c ) noexcept
+            {
+                const char* start = c;
+
+                while ( c[ 0 ] >= '0' && c[ 0 ] <= '9' )
+                {
+                    c++;
+                }
+
+                return c != start;
+            };
 
-            while ( byte[ 0 ] != 0 && ( ( byte[ 0 ] >= '0' && byte[ 0 ] <= '9' ) || ( byte[ 0 ] == '.' ) || ( byte[ 0 ] == 'e' ) || ( byte[ 0 ] == 'E' ) ||
-                                        ( byte[ 0 ] == '+' ) || ( byte[ 0 ] == '-' ) ) )
+            const char* c = text;
+
+            if ( !skipDigits( c ) )
             {
-                byte++;
+                return 0;
             }
 
-            return int32( reinterpret_cast<const char*>( byte ) - text );
+            if ( c[ 0 ] == '.' )
+            {
+                c++;
+
+                if ( !skipDigits( c ) )
+                {
+                    return 0;
+                }
+            }
+
+            if ( c[ 0 ] == 'e' || c[ 0 ] == 'E' )
+            {
+                c++;
+
+                if ( c[ 0 ] == '+' || c[ 0 ] == '-' )
+                {
+                    c++;
+                }
+
+                if ( !skipDigits( c ) )
+                {
+                    return 0;
+                }
+            }
+
+            return int32( c - text );
         }
 
         int32 ReadEscapeChar( const char* text, uint32* value ) noexcept
@@ -814,7 +850,7 @@ namespace C4
 
             if ( text[ 0 ] == '0' )
             {
-                if ( *textLength > 1 && text[ 1 ] != '.' )
+                if ( text[ 1 ] >= '0' && text[ 1 ] <= '9' )
                 {
                     return ( Status::kNumbersCannotHaveLeadingZeros );
                 }
@@ -991,21 +1027,12 @@ namespace C4
 
         bool ParseSign( const char*& text ) noexcept
         {
-            char c = text[ 0 ];
-
-            if ( c == '-' )
+            if ( text[ 0 ] == '-' )
             {
                 text++;
-                text += ComputeWhitespaceLength( text );
                 return ( true );
             }
 
-            if ( c == '+' )
-            {
-                text++;
-                text += ComputeWhitespaceLength( text );
-            }
-
             return ( false );
         }
 
-- 
2.43.0


From 8eb2c08231a056f452ef922578fc88dab89386ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 02/58] fix: accept JSON texts of a single byte

The text 1 is valid JSON, but buffers of fewer than two characters were refused.
---
 Code/Json4C4/C4Json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index a63de86..fced859 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1719,7 +1719,7 @@ namespace C4
 
         Status ParseJsonRoot( Value*& jsonRoot, const Array<char>& nullTerminatedCharArray, int32* errorLine, int32* errorColumn ) noexcept
         {
-            if ( nullTerminatedCharArray.GetArrayElementCount() < 3 )
+            if ( nullTerminatedCharArray.GetArrayElementCount() < 2 )
             {
                 return Status::kTextBufferContentsInvalid;
             }
@@ -1812,7 +1812,7 @@ namespace C4
 
         ParseResult StructuredData::Parse( const Array<char>& nullTerminatedTextBuffer ) noexcept
         {
-            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 3 )
+            if ( nullTerminatedTextBuffer.GetArrayElementCount() < 2 )
             {
                 return ParseResult { Status::kTextBufferContentsInvalid, 0, 0 };
             }
-- 
2.43.0


From e42b1f706cd3b618dfa5faa84a545ff120130077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:00 +0000
Subject: [PATCH 03/58] fix: refuse text after an embedded NUL byte

Parsing stopped at the first NUL byte, so everything behind it was ignored.
---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index fced859..6ab0ef3 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1737,7 +1737,7 @@ namespace C4
             Status status = ParseAnyValue( jsonRoot, text );
 
             text += ComputeWhitespaceLength( text );
-            if ( status == Status::kOk && text[ 0 ] != 0 )
+            if ( status == Status::kOk && text != nullTerminatedCharArray.end() - 1 )
             {
                 status = Status::kExpectedEndOfFile;
             }
-- 
2.43.0


From d6278cb48869380e7bc0e1edbc8f4162694e0ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:04 +0000
Subject: [PATCH 04/58] fix: accept the DEL character in strings

RFC 8259 excludes only U+0000 to U+001F from unescaped characters.
---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 6ab0ef3..ce24d60 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -786,7 +786,7 @@ namespace C4
                     break;
                 }
 
-                if ( ( c < 32U ) || ( c == 127U ) )
+                if ( c < 32U )
                 {
                     return ( Status::kStringIllegalChar );
                 }
-- 
2.43.0


From 060e21a45ca1cd6075c019d71b5b210c238abcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:09 +0000
Subject: [PATCH 05/58] fix: decode a surrogate pair escape into one character

Each half of a \\uD83D\\uDE00 escape was encoded on its own, which is not UTF-8.
---
 Code/Json4C4/C4Json.cpp | 54 ++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index ce24d60..6359a88 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -708,6 +708,32 @@ namespace C4
             return ( 0 );
         }
 
+        int32 ReadHexadecimalCode( const char* text, uint32* code ) noexcept
+        {
+            const uint8* byte = reinterpret_cast<const uint8*>( text );
+
+            *code = 0;
+
+            for ( machine a = 0; a < 4; a++ )
+            {
+                uint32 c = byte[ a ] - '0';
+                if ( c >= 55U )
+                {
+                    return ( 0 );
+                }
+
+                int32 x = hexadecimalCharValue[ c ];
+                if ( x < 0 )
+                {
+                    return ( 0 );
+                }
+
+                *code = ( *code << 4 ) | x;
+            }
+
+            return ( 4 );
+        }
+
         int32 ReadStringEscapeChar( const char* text, int32* stringLength, char* restrict string ) noexcept
         {
             const uint8* byte = reinterpret_cast<const uint8*>( text );
@@ -715,23 +741,23 @@ namespace C4
 
             if ( c == 'u' )
             {
-                uint32 code = 0;
+                uint32 code       = 0;
+                int32  textLength = 5;
 
-                for ( machine a = 1; a <= 4; a++ )
+                if ( ReadHexadecimalCode( text + 1, &code ) == 0 )
                 {
-                    c = byte[ a ] - '0';
-                    if ( c >= 55U )
-                    {
-                        return ( 0 );
-                    }
+                    return ( 0 );
+                }
+
+                if ( code >= 0xD800 && code <= 0xDBFF && text[ 5 ] == '\\' && text[ 6 ] == 'u' )
+                {
+                    uint32 lowCode = 0;
 
-                    int32 x = hexadecimalCharValue[ c ];
-                    if ( x < 0 )
+                    if ( ReadHexadecimalCode( text + 7, &lowCode ) != 0 && lowCode >= 0xDC00 && lowCode <= 0xDFFF )
                     {
-                        return ( 0 );
+                        code       = 0x010000 + ( ( code - 0xD800 ) << 10 ) + ( lowCode - 0xDC00 );
+                        textLength = 11;
                     }
-
-                    code = ( code << 4 ) | x;
                 }
 
                 if ( code != 0 )
@@ -742,10 +768,10 @@ namespace C4
                     }
                     else
                     {
-                        *stringLength = 1 + ( code >= 0x000080 ) + ( code >= 0x000800 );
+                        *stringLength = 1 + ( code >= 0x000080 ) + ( code >= 0x000800 ) + ( code >= 0x010000 );
                     }
 
-                    return ( 5 );
+                    return ( textLength );
                 }
             }
             else
-- 
2.43.0


From a8d36596bbe760b31a8d3d0431ef546b5f5c6c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:14 +0000
Subject: [PATCH 06/58] fix: give every status its own message

The message of KFileTooLarge was missing, so that all later statuses were
described by the message of their successor and the last one read beyond the
table.
---
 Code/Json4C4/C4Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 6359a88..f32b703 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -502,6 +502,7 @@ namespace C4
         static const char* const StatusString[] = { "Ok",
                                                     "Could not open file",
                                                     "Could not read file",
+                                                    "File too large",
                                                     "Invalid JSON text",
                                                     "Unterminated text buffer",
                                                     "Expected opening curly braces",
-- 
2.43.0


From da1d772c317e2d2b7d05215e9c027409c264ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:18 +0000
Subject: [PATCH 07/58] fix: count error lines and columns from the start of
 the text

Whitespace before the value was left out of the count, and whitespace behind
the place of an error was added to it.
---
 Code/Json4C4/C4Json.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index f32b703..70356f6 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1756,17 +1756,19 @@ namespace C4
                 return Status::kUnterminatedTextBuffer;
             }
 
-            const char* text = &nullTerminatedCharArray[ 0 ];
-            text += ComputeWhitespaceLength( text );
-
-            const char* start = text;
+            const char* start = &nullTerminatedCharArray[ 0 ];
+            const char* text  = start + ComputeWhitespaceLength( start );
 
             Status status = ParseAnyValue( jsonRoot, text );
 
-            text += ComputeWhitespaceLength( text );
-            if ( status == Status::kOk && text != nullTerminatedCharArray.end() - 1 )
+            if ( status == Status::kOk )
             {
-                status = Status::kExpectedEndOfFile;
+                text += ComputeWhitespaceLength( text );
+
+                if ( text != nullTerminatedCharArray.end() - 1 )
+                {
+                    status = Status::kExpectedEndOfFile;
+                }
             }
 
             if ( status != Status::kOk )
-- 
2.43.0


From 9949fe915e7252a6756387a25bf1f97e4fa6c03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:26 +0000
Subject: [PATCH 08/58] fix: do not keep the value of a text that has trailing
 garbage

---
 Code/Json4C4/C4Json.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 70356f6..9127603 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1767,6 +1767,9 @@ namespace C4
 
                 if ( text != nullTerminatedCharArray.end() - 1 )
                 {
+                    delete jsonRoot;
+                    jsonRoot = nullptr;
+
                     status = Status::kExpectedEndOfFile;
                 }
             }
-- 
2.43.0


From 860ff9a8b376b52cae2c178ff3ff98e9206f0a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:34 +0000
Subject: [PATCH 09/58] fix: refuse nesting that would exhaust the stack

The parser, the destructors and the writer recurse for every level, so that a
64 KB text of opening brackets crashed the process.
---
 Code/Json4C4/C4Json.cpp | 36 ++++++++++++++++++++++++------------
 Code/Json4C4/C4Json.h   |  7 ++++---
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 9127603..54d7b57 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -95,6 +95,7 @@
 #define JSON4C4VERSION STR( JSON4C4VERSIONMAJOR ) "." STR( JSON4C4VERSIONMINOR ) "." STR( JSON4C4VERSIONPATCH )
 
 #define MAX_FILE_SIZE 0xffff - 1
+#define MAX_NESTING_DEPTH 512
 
 namespace C4
 {
@@ -525,7 +526,8 @@ namespace C4
                                                     "An expected object value pair was not found",
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
-                                                    "Could not find requested name of name/value pair" };
+                                                    "Could not find requested name of name/value pair",
+                                                    "Arrays and objects are nested too deeply" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1063,8 +1065,8 @@ namespace C4
             return ( false );
         }
 
-        template <class T>
-        Status ParseValue( Value*& value, const char*& text ) noexcept
+        template <class T, class... Args>
+        Status ParseValue( Value*& value, const char*& text, Args... args ) noexcept
         {
             T* jsonValue = nullptr;
 
@@ -1080,7 +1082,7 @@ namespace C4
                 return status;
             }
 
-            status = MayThrow( [ & ]() { return T::Parse( jsonValue, text ); } );
+            status = MayThrow( [ & ]() { return T::Parse( jsonValue, text, args... ); } );
 
             if ( status == Status::kOk )
             {
@@ -1094,7 +1096,7 @@ namespace C4
             return status;
         };
 
-        Status ParseAnyValue( Value*& value, const char*& text ) noexcept
+        Status ParseAnyValue( Value*& value, const char*& text, int32 depth ) noexcept
         {
             const char* start = text;
 
@@ -1124,13 +1126,13 @@ namespace C4
             }
             text = start;
 
-            status = ParseValue<ArrayValue>( value, text );
+            status = ParseValue<ArrayValue>( value, text, depth + 1 );
             if ( status == Status::kOk || status != Status::kExpectedOpeningSquareBrackets )
             {
                 return status;
             }
 
-            status = ParseValue<ObjectValue>( value, text );
+            status = ParseValue<ObjectValue>( value, text, depth + 1 );
             if ( status == Status::kOk || status != Status::kExpectedOpeningCurlyBraces || status == Status::kNumbersCannotHaveLeadingZeros )
             {
                 return status;
@@ -1408,13 +1410,18 @@ namespace C4
 
         } // namespace Detail
 
-        Status ArrayValue::Parse( ArrayValue* jsonArray, const char*& text ) noexcept
+        Status ArrayValue::Parse( ArrayValue* jsonArray, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '[' )
             {
                 return Status::kExpectedOpeningSquareBrackets;
             }
 
+            if ( depth > MAX_NESTING_DEPTH )
+            {
+                return Status::kNestingTooDeep;
+            }
+
             bool emptyArray = true;
 
             for ( ;; )
@@ -1435,7 +1442,7 @@ namespace C4
                 }
 
                 Value* jsonValue = nullptr;
-                Status status    = ParseAnyValue( jsonValue, text );
+                Status status    = ParseAnyValue( jsonValue, text, depth );
                 if ( status != Status::kOk )
                 {
                     return status;
@@ -1530,13 +1537,18 @@ namespace C4
             return this->InsertMapElement( element );
         }
 
-        Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text ) noexcept
+        Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '{' )
             {
                 return Status::kExpectedOpeningCurlyBraces;
             }
 
+            if ( depth > MAX_NESTING_DEPTH )
+            {
+                return Status::kNestingTooDeep;
+            }
+
             bool emptyObject = true;
 
             for ( ;; )
@@ -1575,7 +1587,7 @@ namespace C4
 
                 Value* jsonValue = nullptr;
 
-                status = ParseAnyValue( jsonValue, text );
+                status = ParseAnyValue( jsonValue, text, depth );
                 if ( status != Status::kOk )
                 {
                     return status;
@@ -1759,7 +1771,7 @@ namespace C4
             const char* start = &nullTerminatedCharArray[ 0 ];
             const char* text  = start + ComputeWhitespaceLength( start );
 
-            Status status = ParseAnyValue( jsonRoot, text );
+            Status status = ParseAnyValue( jsonRoot, text, 0 );
 
             if ( status == Status::kOk )
             {
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 6d6f4c6..09390ff 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -156,7 +156,8 @@ namespace C4
             kMissingObjectElement,
             kException,
             kInvalidValueType,
-            kNameNotPresent
+            kNameNotPresent,
+            kNestingTooDeep
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
@@ -471,7 +472,7 @@ namespace C4
         class ArrayValue final : public Value
         {
         public:
-            static Status Parse( ArrayValue* jsonArray, const char*& text ) noexcept;
+            static Status Parse( ArrayValue* jsonArray, const char*& text, int32 depth ) noexcept;
 
         public:
             using DataType = Array<Value*>;
@@ -498,7 +499,7 @@ namespace C4
             using Map<Value>::end;
 
         public:
-            static Status Parse( ObjectValue* jsonObjectValue, const char*& text ) noexcept;
+            static Status Parse( ObjectValue* jsonObjectValue, const char*& text, int32 depth ) noexcept;
 
         public:
             TERATHON_API ~ObjectValue() noexcept override;
-- 
2.43.0


From 9cbfb46af35ca68eee59617b8229728b07a17bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:20 +0000
Subject: [PATCH 10/58] fix: read a file correctly when read() returns less
 than asked for

Later parts were read over the beginning of the buffer, and a file that
became shorter made the loop endless.
---
 Code/Json4C4/C4Json.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 54d7b57..1782996 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -375,7 +375,7 @@ namespace C4
 
                 BOOL ok = ::ReadFile( fileHandle, p, end - p, &numberOfBytesRead, nullptr );
 
-                if ( !ok )
+                if ( !ok || numberOfBytesRead == 0 )
                 {
                     return kFileReadError;
                 }
@@ -401,9 +401,9 @@ namespace C4
 
             while ( p != end )
             {
-                int numberOfBytesRead = read( this->fileDescriptor, buffer, end - p );
+                int numberOfBytesRead = read( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesRead == -1 )
+                if ( numberOfBytesRead <= 0 )
                 {
                     return kFileReadError;
                 }
-- 
2.43.0


From d2bb757d4d6744451414899de2900336929f9b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:25 +0000
Subject: [PATCH 11/58] fix: truncate the file that is written

The rest of a longer file that was there before stayed behind the new text.
---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 1782996..8d68b29 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -270,7 +270,7 @@ namespace C4
                 return kFileOkay;
             }
 
-            int fd = open( fileName, O_WRONLY | O_CREAT, 0644 );
+            int fd = open( fileName, O_WRONLY | O_CREAT | O_TRUNC, 0644 );
 
             if ( fd == -1 )
             {
-- 
2.43.0


From c18cea017ee54b53cda3493c1342cd7553be9e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:30 +0000
Subject: [PATCH 12/58] fix: report failing writes

Write returned kOk when the device was full.
---
 Code/Json4C4/C4Json.cpp | 33 ++++++++++++++++++++++++++++-----
 Code/Json4C4/C4Json.h   |  3 ++-
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 8d68b29..39351e8 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -202,6 +202,8 @@ namespace C4
     private:
         bool IsReadOnly = false;
 
+        FileStatus writeStatus = kFileOkay;
+
 #    if defined( JSON4C4_WINDOWS )
 
         HANDLE fileHandle = nullptr;
@@ -222,6 +224,8 @@ namespace C4
         {
             CloseFile();
 
+            writeStatus = kFileOkay;
+
 #    if defined( JSON4C4_WINDOWS )
 
             const WCharBuffer wideFileName( Terathon::String<> { fileName } );
@@ -300,7 +304,10 @@ namespace C4
 
             if ( this->fileDescriptor != -1 )
             {
-                close( this->fileDescriptor );
+                if ( close( this->fileDescriptor ) != 0 && !IsReadOnly )
+                {
+                    writeStatus = kFileWriteError;
+                }
 
                 fileDescriptor = -1;
             }
@@ -442,7 +449,7 @@ namespace C4
 
                 if ( !ok )
                 {
-                    return kFileWriteError;
+                    return writeStatus = kFileWriteError;
                 }
 
                 p += numberOfBytesWritten;
@@ -463,9 +470,9 @@ namespace C4
             {
                 int numberOfBytesWritten = write( this->fileDescriptor, p, end - p );
 
-                if ( numberOfBytesWritten == -1 )
+                if ( numberOfBytesWritten <= 0 )
                 {
-                    return kFileWriteError;
+                    return writeStatus = kFileWriteError;
                 }
 
                 p += numberOfBytesWritten;
@@ -476,6 +483,12 @@ namespace C4
             return kFileOkay;
         }
 
+        // The first error since the file was opened, including that of CloseFile.
+        FileStatus GetWriteStatus() const
+        {
+            return writeStatus;
+        }
+
         File& operator<<( char c )
         {
             this->WriteFile( &c, 1 );
@@ -527,7 +540,8 @@ namespace C4
                                                     "An exception was caught",
                                                     "JSON structured data contains invalid value type",
                                                     "Could not find requested name of name/value pair",
-                                                    "Arrays and objects are nested too deeply" };
+                                                    "Arrays and objects are nested too deeply",
+                                                    "Could not write file" };
 
         TERATHON_API String<256> StatusToString( const Status& status ) noexcept
         {
@@ -1895,6 +1909,15 @@ namespace C4
 
                 file.CloseFile();
 
+#ifndef C4_ENGINE_MODULE
+
+                if ( status == Status::kOk && file.GetWriteStatus() != kFileOkay )
+                {
+                    return Status::KFileWriteError;
+                }
+
+#endif
+
                 return status;
             }
 
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 09390ff..c8e7de6 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -157,7 +157,8 @@ namespace C4
             kException,
             kInvalidValueType,
             kNameNotPresent,
-            kNestingTooDeep
+            kNestingTooDeep,
+            KFileWriteError
         };
 
         TERATHON_API String<256> StatusToString( const Status& parseResult ) noexcept;
-- 
2.43.0


From db987cd0b88ea7fc913636f084f523189183ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:35 +0000
Subject: [PATCH 13/58] fix: return an error for documents without a value

Deserializing or validating one dereferenced a null pointer, and writing one
emptied the file.
---
 Code/Json4C4/C4Json.cpp | 23 +++++++++++------------
 Code/Json4C4/C4Json.h   | 10 ++++++++++
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 39351e8..73778fc 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1894,6 +1894,10 @@ namespace C4
 
         TERATHON_API Status StructuredData::Write( const char* fileName, const uint32 indentationLength, const char indentationChar ) noexcept
         {
+            if ( !rootJsonValue )
+            {
+                return Status::kInvalidStructuredData;
+            }
 
             File file;
             if ( file.OpenFile( fileName, kFileCreate ) != kFileOkay )
@@ -1903,25 +1907,20 @@ namespace C4
 
             Array<char> indentCharArray;
 
-            if ( rootJsonValue )
-            {
-                Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
+            Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
 
-                file.CloseFile();
+            file.CloseFile();
 
 #ifndef C4_ENGINE_MODULE
 
-                if ( status == Status::kOk && file.GetWriteStatus() != kFileOkay )
-                {
-                    return Status::KFileWriteError;
-                }
+            if ( status == Status::kOk && file.GetWriteStatus() != kFileOkay )
+            {
+                return Status::KFileWriteError;
+            }
 
 #endif
 
-                return status;
-            }
-
-            return Status::kInvalidStructuredData;
+            return status;
         }
 
         const Value* StructuredData::GetRootJsonValue() const noexcept
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index c8e7de6..49670db 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -574,6 +574,11 @@ namespace C4
             template <class T>
             Status DeserializeTo( T& data ) noexcept
             {
+                if ( rootJsonValue == nullptr )
+                {
+                    return Status::kInvalidStructuredData;
+                }
+
                 return MayThrow(
                     [ & ]()
                     {
@@ -626,6 +631,11 @@ namespace C4
         template <class T>
         Status Validate( const StructuredData& sd, const T& data ) noexcept
         {
+            if ( sd.GetRootJsonValue() == nullptr )
+            {
+                return Status::kInvalidStructuredData;
+            }
+
             return MayThrow(
                 [ & ]()
                 {
-- 
2.43.0


From d9bd83833f1e832edbc8a994aa62af8a76fe319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:20 +0000
Subject: [PATCH 14/58] fix: escape strings and names when writing

Quotes, backslashes and control characters were written as they are, which
gives a text that is not JSON or means something else. Text that is not UTF-8
is refused, as it is when parsing.
---
 Code/Json4C4/C4Json.cpp | 62 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 73778fc..90ac20d 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -625,6 +625,54 @@ namespace C4
             }
         }
 
+        Status WriteStringLiteral( File& file, const char* string )
+        {
+            constexpr char digits[] = "0123456789abcdef";
+
+            const char* start = string;
+
+            file << '"';
+
+            for ( ;; )
+            {
+                const uint32 c = *reinterpret_cast<const uint8*>( string );
+
+                if ( c >= 32U && c != '"' && c != '\\' )
+                {
+                    const int32 length = Text::ValidateUnicodeChar( string );
+                    if ( length == 0 )
+                    {
+                        return Status::kStringIllegalChar;
+                    }
+
+                    string += length;
+                    continue;
+                }
+
+                file.WriteFile( start, string - start );
+
+                if ( c == 0 )
+                {
+                    break;
+                }
+
+                if ( c < 32U )
+                {
+                    file << "\\u00" << digits[ c >> 4 ] << digits[ c & 15 ];
+                }
+                else
+                {
+                    file << '\\' << char( c );
+                }
+
+                start = ++string;
+            }
+
+            file << '"';
+
+            return Status::kOk;
+        }
+
         int32 ComputeWhitespaceLength( const char* text ) noexcept
         {
             const uint8* byte = reinterpret_cast<const uint8*>( text );
@@ -1223,9 +1271,7 @@ namespace C4
 
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
-                file << '\"' << data << '\"';
-
-                return Status::kOk;
+                return WriteStringLiteral( file, data );
             }
         };
 
@@ -1751,9 +1797,15 @@ namespace C4
 
                 file.WriteFile( indentationCharArray.begin(), indentationCharArray.GetArrayElementCount() );
 
-                file << '"' << value->name << "\" : ";
+                Status status = WriteStringLiteral( file, value->name );
+                if ( status != Status::kOk )
+                {
+                    return status;
+                }
+
+                file << " : ";
 
-                Status status = value->Write( file, indentationLength, indentationChar, indentationCharArray );
+                status = value->Write( file, indentationLength, indentationChar, indentationCharArray );
                 if ( status != Status::kOk )
                 {
                     return status;
-- 
2.43.0


From 6df73ad72f7466b459af5405b8efcbe5b04a8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:24 +0000
Subject: [PATCH 15/58] fix: refuse to write numbers that JSON cannot represent

nan and inf were written, which no JSON parser accepts.
---
 Code/Json4C4/C4Json.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 90ac20d..b4c9f90 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1327,6 +1327,11 @@ namespace C4
             Status Write( File& file, uint32 /*indentationLength*/, const char /*indentationChar*/, Array<char>& /*indentationCharArray*/ ) const override
             {
 
+                if ( data - data != 0.0 )
+                {
+                    return Status::kFloatInvalid;
+                }
+
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
 
                 constexpr int maxDoubleDigits = 32;
-- 
2.43.0


From 02324806a729e517175984d46cbf15198409950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:29 +0000
Subject: [PATCH 16/58] fix: convert numbers independently of the locale

With a decimal comma in the process's locale 1.5 was read as 1 and written as
1,5.
---
 Code/Json4C4/C4Json.cpp | 61 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 56 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index b4c9f90..e3da090 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -929,6 +929,23 @@ namespace C4
             return ( Status::kOk );
         }
 
+#ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
+
+        // The system conversions use the decimal point of the current locale, which need not be the one of JSON.
+        int32 ReadLocaleDecimalPoint( char* decimalPoint, int32 size ) noexcept
+        {
+            int32 length = int32( snprintf( decimalPoint, size, "%.1f", 0.5 ) ) - 2;
+
+            for ( int32 a = 0; a < length; a++ )
+            {
+                decimalPoint[ a ] = decimalPoint[ a + 1 ];
+            }
+
+            return length;
+        }
+
+#endif
+
         Status ReadDoubleLiteral( const char* text, int32* textLength, double* value )
         {
 #ifdef JSON4C4_USE_SYSTEM_DOUBLE_STRING_CONVERSIONS
@@ -947,11 +964,30 @@ namespace C4
                 }
             }
 
-            char* str = new char[ ( *textLength ) + 1 ];
+            constexpr int maxDecimalPointSize = 16;
+            char          decimalPoint[ maxDecimalPointSize ];
+
+            int32 decimalPointLength = ReadLocaleDecimalPoint( decimalPoint, maxDecimalPointSize );
 
-            Text::CopyText( text, str, *textLength );
+            char* str = new char[ ( *textLength ) + decimalPointLength + 1 ];
+            char* p   = str;
+
+            for ( int32 a = 0; a < *textLength; a++ )
+            {
+                if ( text[ a ] != '.' )
+                {
+                    *( p++ ) = text[ a ];
+                }
+                else
+                {
+                    for ( int32 b = 0; b < decimalPointLength; b++ )
+                    {
+                        *( p++ ) = decimalPoint[ b ];
+                    }
+                }
+            }
 
-            str[ *textLength ] = 0;
+            *p = 0;
 
             char*  end = nullptr;
             double v   = strtod( str, &end );
@@ -1337,9 +1373,24 @@ namespace C4
                 constexpr int maxDoubleDigits = 32;
                 char          output[ maxDoubleDigits ];
 
-                snprintf( output, maxDoubleDigits, "%.17g", data );
+                int32 length = int32( snprintf( output, maxDoubleDigits, "%.17g", data ) );
+                int32 count  = 0;
+
+                for ( int32 a = 0; a < length; a++ )
+                {
+                    const char c = output[ a ];
+
+                    if ( ( c >= '0' && c <= '9' ) || c == '-' || c == '+' || c == 'e' )
+                    {
+                        output[ count++ ] = c;
+                    }
+                    else if ( output[ count - 1 ] != '.' )
+                    {
+                        output[ count++ ] = '.';
+                    }
+                }
 
-                file << output;
+                file.WriteFile( output, count );
 
 #else
 
-- 
2.43.0


From 674cfc2ffe287eb4017032b418c73e3beb2784e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:05 +0000
Subject: [PATCH 17/58] fix: let the map know when its root element is replaced

Map::InsertReplaceMapElement left the map pointing to the replaced element.
---
 Code/Terathon/TSMap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Terathon/TSMap.cpp b/Code/Terathon/TSMap.cpp
index 8c1fcba..b424f3a 100644
--- a/Code/Terathon/TSMap.cpp
+++ b/Code/Terathon/TSMap.cpp
@@ -571,6 +571,10 @@ void MapBase::ReplaceMapElement(MapElementBase *element, MapElementBase *replace
 			super->rightSubnode = replacement;
 		}
 	}
+	else
+	{
+		rootElement = replacement;
+	}
 
 	replacement->superNode = super;
 	replacement->balance = element->balance;
-- 
2.43.0


From fe38f9484bf2be290d04f87bcfd3f618e482fc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:13 +0000
Subject: [PATCH 18/58] fix: keep only the first of repeated names in an object

The value of a repeated name was leaked, and the first value was written once
for every repetition.
---
 Code/Json4C4/C4Json.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index e3da090..ec1742c 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1648,6 +1648,11 @@ namespace C4
 
         bool ObjectValue::InsertAccountedMapElement( Value* element )
         {
+            if ( this->FindMapElement( element->name ) )
+            {
+                return false;
+            }
+
             insertionOrder.AppendArrayElement( element->name );
 
             return this->InsertMapElement( element );
@@ -1713,7 +1718,11 @@ namespace C4
                     [ & ]()
                     {
                         jsonValue->name = name.data;
-                        jsonObject->InsertAccountedMapElement( jsonValue );
+
+                        if ( !jsonObject->InsertAccountedMapElement( jsonValue ) )
+                        {
+                            delete jsonValue;
+                        }
 
                         return Status::kOk;
                     } );
-- 
2.43.0


From 40758ee89ab4ce0ed2290a63f8bdd1b7e643c4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:18 +0000
Subject: [PATCH 19/58] fix: return the status of serializing a named value

A nested value that could not be serialized was stored all the same and the
error was lost; a value whose name was already there was leaked and dropped.
---
 Code/Json4C4/C4Json.cpp | 10 ++++++++++
 Code/Json4C4/C4Json.h   | 15 +++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index ec1742c..3080d0e 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1658,6 +1658,16 @@ namespace C4
             return this->InsertMapElement( element );
         }
 
+        Value* ObjectValue::InsertReplaceAccountedMapElement( Value* element )
+        {
+            if ( !this->FindMapElement( element->name ) )
+            {
+                insertionOrder.AppendArrayElement( element->name );
+            }
+
+            return this->InsertReplaceMapElement( element );
+        }
+
         Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '{' )
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 49670db..3860c35 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -517,6 +517,8 @@ namespace C4
 
             TERATHON_API bool InsertAccountedMapElement( Value* element );
 
+            TERATHON_API Value* InsertReplaceAccountedMapElement( Value* element );
+
             TERATHON_API Status Write( File& file, uint32 indentationLength, const char indentationChar, Array<char>& indentationCharArray ) const override;
         };
 
@@ -707,9 +709,18 @@ namespace C4
                     {
                         associateValue       = Detail::CreateValueFor( data );
                         associateValue->name = name;
-                        Serialize( associateValue, data );
 
-                        objectValue->InsertAccountedMapElement( associateValue );
+                        Status status = Serialize( associateValue, data );
+
+                        if ( status != Status::kOk )
+                        {
+                            return status;
+                        }
+
+                        if ( Value* previousValue = objectValue->InsertReplaceAccountedMapElement( associateValue ) )
+                        {
+                            delete previousValue;
+                        }
 
                         return Status::kOk;
                     } );
-- 
2.43.0


From 471e1228990a660c911472c8878f528225c8475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:23 +0000
Subject: [PATCH 20/58] fix: write the elements of serialized maps

Elements of an ObjectMap or std::map were left out of the order in which an
object is written, so that it was written as {}, and the elements that were
there before were leaked.
---
 Code/Json4C4/C4Json.cpp |  6 ++++++
 Code/Json4C4/C4Json.h   | 10 ++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 3080d0e..e64e12e 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1668,6 +1668,12 @@ namespace C4
             return this->InsertReplaceMapElement( element );
         }
 
+        void ObjectValue::PurgeAccountedMapElements() noexcept
+        {
+            this->PurgeMap();
+            insertionOrder.PurgeArray();
+        }
+
         Status ObjectValue::Parse( ObjectValue* jsonObject, const char*& text, int32 depth ) noexcept
         {
             if ( text[ 0 ] != '{' )
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 3860c35..aefb2f8 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -519,6 +519,8 @@ namespace C4
 
             TERATHON_API Value* InsertReplaceAccountedMapElement( Value* element );
 
+            TERATHON_API void PurgeAccountedMapElements() noexcept;
+
             TERATHON_API Status Write( File& file, uint32 indentationLength, const char indentationChar, Array<char>& indentationCharArray ) const override;
         };
 
@@ -1092,7 +1094,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeAccountedMapElements();
 
                     T      temp;
                     Status status;
@@ -1117,7 +1119,7 @@ namespace C4
                             return status;
                         }
 
-                        objectValue->InsertMapElement( elem );
+                        objectValue->InsertAccountedMapElement( elem );
                     }
                     return Status::kOk;
                 } );
@@ -1368,7 +1370,7 @@ namespace C4
             return MayThrow(
                 [ & ]()
                 {
-                    objectValue->RemoveAllMapElements();
+                    objectValue->PurgeAccountedMapElements();
 
                     T      temp;
                     Status status;
@@ -1393,7 +1395,7 @@ namespace C4
                             return status;
                         }
 
-                        objectValue->InsertMapElement( elem );
+                        objectValue->InsertAccountedMapElement( elem );
                     }
 
                     return Status::kOk;
-- 
2.43.0


From 8fdec06e6a3fec7a69553f51b01ee8049d2a0da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:57 +0000
Subject: [PATCH 21/58] fix: serialize std::vector as an array

The value made for a std::vector was an object, so that it could not be
serialized.
---
 Code/Json4C4/C4Json.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index aefb2f8..8ac4ac0 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -539,6 +539,16 @@ namespace C4
                 return new ArrayValue;
             }
 
+#ifdef JSON4C4_ENABLE_STD_SUPPORT_INTERNAL
+
+            template <class T>
+            Value* CreateValueFor( const std::vector<T>& ) noexcept( false )
+            {
+                return new ArrayValue;
+            }
+
+#endif
+
             template <>
             TERATHON_API Value* CreateValueFor( const String<>& ) noexcept( false );
 
-- 
2.43.0


From 7647304d2881dcf9a3db4ea7d1b5908d6bab8968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:02 +0000
Subject: [PATCH 22/58] fix: deserialize std::vector of types with member
 functions

This did not compile.
---
 Code/Json4C4/C4Json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 8ac4ac0..5d7757b 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1218,7 +1218,7 @@ namespace C4
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
                         {
-                            status = temp->Deserialize( value );
+                            status = temp.Deserialize( value );
                         }
                         else
                         {
-- 
2.43.0


From dcf38dc916747cadc160440fc32445a3799ff553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:07 +0000
Subject: [PATCH 23/58] fix: accept types with member functions as named values

The type check meant for basic types came first and did not compile.
---
 Code/Json4C4/C4Json.h | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 5d7757b..16fe4b7 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -778,23 +778,23 @@ namespace C4
         }
 
         template <class T>
-        Status Validate( const Value* value, const T& /*data*/ ) noexcept
+        Status Validate( const Value* value, [[maybe_unused]] const T& data ) noexcept
         {
-            const T* valueData = value->GetDataAsPointerTo<T>();
+            if constexpr ( Detail::HasValidateMember<T>::Value )
+            {
+                return MayThrow( [ & ]() { return data.Validate( value ); } );
+            }
+            else
+            {
+                const T* valueData = value->GetDataAsPointerTo<T>();
 
-            return valueData ? Status::kOk : Status::kInvalidValueType;
+                return valueData ? Status::kOk : Status::kInvalidValueType;
+            }
         }
 
         template <class T>
         Status Deserialize( const Value* value, T& data ) noexcept
         {
-            const T* valueData = value->GetDataAsPointerTo<T>();
-
-            if ( !valueData )
-            {
-                return Status::kInvalidValueType;
-            }
-
             return MayThrow(
                 [ & ]()
                 {
@@ -804,6 +804,13 @@ namespace C4
                     }
                     else
                     {
+                        const T* valueData = value->GetDataAsPointerTo<T>();
+
+                        if ( !valueData )
+                        {
+                            return Status::kInvalidValueType;
+                        }
+
                         data = *valueData;
                         return Status::kOk;
                     }
@@ -813,13 +820,6 @@ namespace C4
         template <class T>
         Status Serialize( Value* value, const T& data ) noexcept
         {
-            T* valueData = value->GetDataAsPointerTo<T>();
-
-            if ( !valueData )
-            {
-                return Status::kInvalidValueType;
-            }
-
             return MayThrow(
                 [ & ]()
                 {
@@ -829,6 +829,13 @@ namespace C4
                     }
                     else
                     {
+                        T* valueData = value->GetDataAsPointerTo<T>();
+
+                        if ( !valueData )
+                        {
+                            return Status::kInvalidValueType;
+                        }
+
                         *valueData = data;
 
                         return Status::kOk;
-- 
2.43.0


From 0885e4b7255c88995b4d8a11b7b51c1f3516cfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 24/58] fix: refuse to serialize a std::string with null
 characters

It was cut at the first one without notice, and names that differed only
behind it were lost.
---
 Code/Json4C4/C4Json.cpp | 6 ++++++
 Code/Json4C4/C4Json.h   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index e64e12e..78a22c0 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -2131,6 +2131,12 @@ namespace C4
                 return Status::kInvalidValueType;
             }
 
+            // A String<> ends at its first null character.
+            if ( data.find( '\0' ) != std::string::npos )
+            {
+                return Status::kStringIllegalChar;
+            }
+
             return MayThrow(
                 [ & ]()
                 {
diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 16fe4b7..fee92c1 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -1394,6 +1394,12 @@ namespace C4
 
                     for ( auto const& [ dataMapElementKey, dataMapElementData ] : data )
                     {
+                        // A String<> ends at its first null character.
+                        if ( dataMapElementKey.find( '\0' ) != std::string::npos )
+                        {
+                            return Status::kStringIllegalChar;
+                        }
+
                         Value* elem = Detail::CreateValueFor( temp );
                         elem->name  = dataMapElementKey.c_str();
 
-- 
2.43.0


From e17a834db95e573976cc157b3e8ef0a81e836e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 25/58] fix: do not keep a pointer to the deleted value in
 SerializeFrom

---
 Code/Json4C4/C4Json.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index fee92c1..27fbf5f 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -613,6 +613,7 @@ namespace C4
                 if ( rootJsonValue != nullptr )
                 {
                     delete rootJsonValue;
+                    rootJsonValue = nullptr;
                 }
 
                 Status status = MayThrow(
-- 
2.43.0


From 678780ac36c393a12a2e8c8e957ae2099fad1dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 26/58] fix: format the least integers correctly

-2147483648 was formatted as -0.
---
 Code/Terathon/TSText.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index b66320b..a40e32f 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1168,15 +1168,15 @@ int32 Text::IntegerToString(int32 num, char *text, int32 max)
 	char	c[16];
 
 	bool negative = (num < 0);
-	num = Abs(num) & 0x7FFFFFFF;
+	uint32 magnitude = (negative) ? 0U - uint32(num) : uint32(num);
 
 	machine length = 0;
 	do
 	{
-		int32 p = num % 10;
+		uint32 p = magnitude % 10;
 		c[length++] = char(p + 48);
-		num /= 10;
-	} while (num != 0);
+		magnitude /= 10;
+	} while (magnitude != 0);
 
 	machine a = -1;
 	if (negative)
@@ -1214,15 +1214,15 @@ int32 Text::Integer64ToString(int64 num, char *text, int32 max)
 	char	c[32];
 
 	bool negative = (num < 0);
-	num = Abs64(num) & 0x7FFFFFFFFFFFFFFFULL;
+	uint64 magnitude = (negative) ? 0U - uint64(num) : uint64(num);
 
 	machine length = 0;
 	do
 	{
-		int32 p = num % 10;
+		uint32 p = magnitude % 10;
 		c[length++] = char(p + 48);
-		num /= 10;
-	} while (num != 0);
+		magnitude /= 10;
+	} while (magnitude != 0);
 
 	machine a = -1;
 	if (negative)
-- 
2.43.0


From 49ac8ecfbdd7eac198ecd18a42e82e38ca70fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:00 +0000
Subject: [PATCH 27/58] fix: format unsigned integers as unsigned

Those above the signed range were appended as negative numbers.
---
 Code/Terathon/TSString.cpp | 10 +++++-----
 Code/Terathon/TSString.h   |  8 ++++----
 Code/Terathon/TSText.cpp   | 21 +++++++++++++++++++++
 Code/Terathon/TSText.h     |  1 +
 4 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 6bf3912..df9f753 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -197,7 +197,7 @@ String<0>::String(uint32 n)
 {
 	physicalSize = kStringLocalSize;
 	stringPointer = localString;
-	logicalSize = Text::IntegerToString(n, localString, kStringLocalSize - 1) + 1;
+	logicalSize = Text::UnsignedInteger64ToString(n, localString, kStringLocalSize - 1) + 1;
 }
 
 String<0>::String(int64 n)
@@ -265,7 +265,7 @@ String<0>::String(uint32 n, const char *s1)
 	physicalSize = GetPhysicalSize(size);
 	stringPointer = new char[physicalSize];
 	Text::CopyText(s1, stringPointer);
-	logicalSize = len1 + Text::IntegerToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
+	logicalSize = len1 + Text::UnsignedInteger64ToString(n, stringPointer + len1, kStringAllocSize - 1) + 1;
 }
 
 String<0>::String(int64 n, const char *s1)
@@ -417,7 +417,7 @@ String<0>& String<0>::operator =(int32 n)
 String<0>& String<0>::operator =(uint32 n)
 {
 	Resize(kStringAllocSize);
-	logicalSize = Text::IntegerToString(n, stringPointer, kStringAllocSize - 1) + 1;
+	logicalSize = Text::UnsignedInteger64ToString(n, stringPointer, kStringAllocSize - 1) + 1;
 	return (*this);
 }
 
@@ -550,7 +550,7 @@ String<0>& String<0>::operator +=(uint32 n)
 		stringPointer = newPointer;
 	}
 
-	logicalSize += Text::IntegerToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
+	logicalSize += Text::UnsignedInteger64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
 	return (*this);
 }
 
@@ -592,7 +592,7 @@ String<0>& String<0>::operator +=(uint64 n)
 		stringPointer = newPointer;
 	}
 
-	logicalSize += Text::Integer64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
+	logicalSize += Text::UnsignedInteger64ToString(n, stringPointer + logicalSize - 1, kStringAllocSize - 1);
 	return (*this);
 }
 
diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index 9f01605..f103ae5 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -191,7 +191,7 @@ namespace Terathon
 
 			explicit String(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::UnsignedInteger64ToString(n, c, len);
 			}
 
 			explicit String(int64 n)
@@ -249,7 +249,7 @@ namespace Terathon
 
 			String& operator =(uint32 n)
 			{
-				Text::IntegerToString(n, c, len);
+				Text::UnsignedInteger64ToString(n, c, len);
 				return (*this);
 			}
 
@@ -294,7 +294,7 @@ namespace Terathon
 			String& operator +=(uint32 n)
 			{
 				int32 l = GetStringLength();
-				Text::IntegerToString(n, &c[l], len - l);
+				Text::UnsignedInteger64ToString(n, &c[l], len - l);
 				return (*this);
 			}
 
@@ -308,7 +308,7 @@ namespace Terathon
 			String& operator +=(uint64 n)
 			{
 				int32 l = GetStringLength();
-				Text::Integer64ToString(n, &c[l], len - l);
+				Text::UnsignedInteger64ToString(n, &c[l], len - l);
 				return (*this);
 			}
 
diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index a40e32f..293ba35 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1255,6 +1255,27 @@ int32 Text::Integer64ToString(int64 num, char *text, int32 max)
 	return (int32(a));
 }
 
+int32 Text::UnsignedInteger64ToString(uint64 num, char *text, int32 max)
+{
+	char	c[32];
+
+	machine length = 0;
+	do
+	{
+		c[length++] = char(num % 10 + 48);
+		num /= 10;
+	} while (num != 0);
+
+	machine a = 0;
+	while ((a < max) && (length != 0))
+	{
+		text[a++] = c[--length];
+	}
+
+	text[a] = 0;
+	return (int32(a));
+}
+
 int32 Text::FloatToString(float num, char *text, int32 max)
 {
 	if (max < 1)
diff --git a/Code/Terathon/TSText.h b/Code/Terathon/TSText.h
index d29392f..b749b2c 100644
--- a/Code/Terathon/TSText.h
+++ b/Code/Terathon/TSText.h
@@ -351,6 +351,7 @@ namespace Terathon
 
 		TERATHON_API int32 IntegerToString(int32 num, char *text, int32 max);
 		TERATHON_API int32 Integer64ToString(int64 num, char *text, int32 max);
+		TERATHON_API int32 UnsignedInteger64ToString(uint64 num, char *text, int32 max);
 		TERATHON_API int32 FloatToString(float num, char *text, int32 max);
 
 		TERATHON_API int32 GetResourceNameLength(const char *text);
-- 
2.43.0


From 3b841513ab5c71e3770be49224952066f7c2631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:02 +0000
Subject: [PATCH 28/58] fix: return the whole length from FloatToString

With an exponent only the length of the exponent was returned.
---
 Code/Terathon/TSText.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 293ba35..28b18dd 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1461,7 +1461,7 @@ int32 Text::FloatToString(float num, char *text, int32 max)
 	if ((power != 0) && (len < max))
 	{
 		text[len++] = 'e';
-		return (IntegerToString(power, &text[len], max - len));
+		return (len + IntegerToString(power, &text[len], max - len));
 	}
 
 	end:
-- 
2.43.0


From 56690ecb5ee09881f951fdf95a4af6ca4cfae0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 29/58] fix: record the size of the local buffer in
 SetStringLength

After shortening a string its size was still taken to be that of the freed
buffer, so that later appending wrote beyond the local one.
---
 Code/Terathon/TSString.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index df9f753..cd83ba2 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -633,6 +633,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 			{
 				Text::CopyText(stringPointer, localString, copyLength);
 				delete[] stringPointer;
+				physicalSize = kStringLocalSize;
 				stringPointer = localString;
 			}
 
-- 
2.43.0


From 2e7c047cf5b4f0173b2f595f309f0e329309048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:04 +0000
Subject: [PATCH 30/58] fix: count the terminator in EncodeEscapeSequences

---
 Code/Terathon/TSString.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index cd83ba2..408a8d7 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -784,8 +784,8 @@ String<0>& String<0>::EncodeEscapeSequences(void)
 
 	if (maxCharSize > 1)
 	{
-		logicalSize = encodedLength;
-		physicalSize = GetPhysicalSize(encodedLength);
+		logicalSize = encodedLength + 1;
+		physicalSize = GetPhysicalSize(logicalSize);
 		char *encodedString = new char[physicalSize];
 
 		byte = reinterpret_cast<uint8 *>(stringPointer);
-- 
2.43.0


From 463a4dfe58eb8dbdd7abf6de96d2fff278bf5a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:05 +0000
Subject: [PATCH 31/58] fix: allow assigning a string to itself

---
 Code/Terathon/TSString.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 408a8d7..daed22e 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -346,6 +346,11 @@ String<0>& String<0>::Set(const char *s, int32 length)
 
 String<0>& String<0>::operator =(String&& s) noexcept
 {
+	if (this == &s)
+	{
+		return (*this);
+	}
+
 	if (stringPointer != localString)
 	{
 		delete[] stringPointer;
@@ -377,6 +382,11 @@ String<0>& String<0>::operator =(String&& s) noexcept
 
 String<0>& String<0>::operator =(const String& s)
 {
+	if (this == &s)
+	{
+		return (*this);
+	}
+
 	int32 size = s.logicalSize;
 	if (size > 1)
 	{
-- 
2.43.0


From 6e7fd3a794c1ed7e36fa36b96682d9a0b5fa0a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 32/58] fix: allow appending a string to itself

The terminator that ends the copy was overwritten by the copy.
---
 Code/Terathon/TSString.cpp | 18 +++++++++++++++---
 Code/Terathon/TSString.h   |  2 +-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index daed22e..8cd67a1 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -456,6 +456,7 @@ String<0>& String<0>::operator +=(const String<>& s)
 			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
 			char *newPointer = new char[physicalSize];
 			Text::CopyText(stringPointer, newPointer);
+			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
 			if (stringPointer != localString)
 			{
@@ -464,8 +465,11 @@ String<0>& String<0>::operator +=(const String<>& s)
 
 			stringPointer = newPointer;
 		}
+		else
+		{
+			Text::CopyText(s, stringPointer + logicalSize - 1, length);
+		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1);
 		logicalSize = size;
 	}
 
@@ -483,6 +487,7 @@ String<0>& String<0>::operator +=(const char *s)
 			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
 			char *newPointer = new char[physicalSize];
 			Text::CopyText(stringPointer, newPointer);
+			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
 			if (stringPointer != localString)
 			{
@@ -491,8 +496,11 @@ String<0>& String<0>::operator +=(const char *s)
 
 			stringPointer = newPointer;
 		}
+		else
+		{
+			Text::CopyText(s, stringPointer + logicalSize - 1, length);
+		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1);
 		logicalSize = size;
 	}
 
@@ -673,6 +681,7 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
 			char *newPointer = new char[physicalSize];
 			Text::CopyText(stringPointer, newPointer);
+			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
 			if (stringPointer != localString)
 			{
@@ -681,8 +690,11 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 
 			stringPointer = newPointer;
 		}
+		else
+		{
+			Text::CopyText(s, stringPointer + logicalSize - 1, length);
+		}
 
-		Text::CopyText(s, stringPointer + logicalSize - 1, length);
 		logicalSize = size;
 	}
 
diff --git a/Code/Terathon/TSString.h b/Code/Terathon/TSString.h
index f103ae5..a6cdf56 100644
--- a/Code/Terathon/TSString.h
+++ b/Code/Terathon/TSString.h
@@ -268,7 +268,7 @@ namespace Terathon
 			String& operator +=(const char *s)
 			{
 				int32 l = GetStringLength();
-				Text::CopyText(s, &c[l], len - l);
+				Text::CopyText(s, &c[l], Min(Text::GetTextLength(s), len - l));
 				return (*this);
 			}
 
-- 
2.43.0


From d1ea9540827a07e1bdbf35328e76b14a950b8e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 33/58] fix: free the storage of a moved array

An array with built-in storage that had grown and become small again leaked its
heap storage when moved.
---
 Code/Terathon/TSArray.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index f9080c5..cac42c5 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -419,6 +419,12 @@ namespace Terathon
 				new(&arrayPointer[a]) type(static_cast<type&&>(pointer[a]));
 				pointer[a].~type();
 			}
+
+			char *ptr = reinterpret_cast<char *>(pointer);
+			if (ptr != array.arrayStorage)
+			{
+				delete[] ptr;
+			}
 		}
 
 		array.elementCount = 0;
-- 
2.43.0


From 39279548c835cd69c3fb9a76780b6c64e9d594fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 34/58] fix: keep strings and arrays intact when an allocation
 fails

Sizes were changed and storage freed before the new storage was there.
---
 Code/Terathon/TSArray.h    | 10 +++---
 Code/Terathon/TSString.cpp | 62 +++++++++++++++++++++++---------------
 2 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index cac42c5..51363db 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -483,8 +483,9 @@ namespace Terathon
 	template <typename type, int32 baseCount>
 	void Array<type, baseCount>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, baseCount));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
+		reservedCount = newCount;
 
 		type *pointer = arrayPointer;
 		for (machine a = 0; a < elementCount; a++)
@@ -793,8 +794,9 @@ namespace Terathon
 	template <typename type>
 	void Array<type, 0>::SetReservedCount(int32 count)
 	{
-		reservedCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
-		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
+		int32 newCount = Max(Max(count, 4), reservedCount + Max((reservedCount / 2 + 3) & ~3, 4));
+		type *newPointer = reinterpret_cast<type *>(new char[sizeof(type) * newCount]);
+		reservedCount = newCount;
 
 		type *pointer = arrayPointer;
 		if (pointer)
diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 8cd67a1..adcc28f 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -294,18 +294,20 @@ void String<0>::PurgeString(void)
 
 void String<0>::Resize(int32 size)
 {
-	logicalSize = size;
 	if (size > kStringLocalSize)
 	{
 		if ((size > physicalSize) || (size < physicalSize / 2))
 		{
+			int32 newSize = GetPhysicalSize(size);
+			char *newPointer = new char[newSize];
+
 			if (stringPointer != localString)
 			{
 				delete[] stringPointer;
 			}
 
-			physicalSize = GetPhysicalSize(size);
-			stringPointer = new char[physicalSize];
+			physicalSize = newSize;
+			stringPointer = newPointer;
 		}
 	}
 	else
@@ -318,6 +320,8 @@ void String<0>::Resize(int32 size)
 		physicalSize = kStringLocalSize;
 		stringPointer = localString;
 	}
+
+	logicalSize = size;
 }
 
 String<0>& String<0>::Set(const char *s, int32 length)
@@ -453,8 +457,9 @@ String<0>& String<0>::operator +=(const String<>& s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
+			physicalSize = newSize;
 			Text::CopyText(stringPointer, newPointer);
 			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
@@ -484,8 +489,9 @@ String<0>& String<0>::operator +=(const char *s)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
+			physicalSize = newSize;
 			Text::CopyText(stringPointer, newPointer);
 			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
@@ -512,8 +518,9 @@ String<0>& String<0>::operator +=(char k)
 	int32 size = logicalSize + 1;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -535,8 +542,9 @@ String<0>& String<0>::operator +=(int32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -556,8 +564,9 @@ String<0>& String<0>::operator +=(uint32 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -577,8 +586,9 @@ String<0>& String<0>::operator +=(int64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -598,8 +608,9 @@ String<0>& String<0>::operator +=(uint64 n)
 	int32 size = logicalSize + kStringAllocSize;
 	if (size > physicalSize)
 	{
-		physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-		char *newPointer = new char[physicalSize];
+		int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+		char *newPointer = new char[newSize];
+		physicalSize = newSize;
 		Text::CopyText(stringPointer, newPointer);
 
 		if (stringPointer != localString)
@@ -629,14 +640,14 @@ String<0>& String<0>::SetStringLength(int32 length)
 		if (size != logicalSize)
 		{
 			int32 copyLength = Min(length, logicalSize - 1);
-			logicalSize = size;
 
 			if (size > kStringLocalSize)
 			{
 				if ((size > physicalSize) || (size < physicalSize / 2))
 				{
-					physicalSize = GetPhysicalSize(size);
-					char *newPointer = new char[physicalSize];
+					int32 newSize = GetPhysicalSize(size);
+					char *newPointer = new char[newSize];
+					physicalSize = newSize;
 					Text::CopyText(stringPointer, newPointer, copyLength);
 
 					if (stringPointer != localString)
@@ -656,6 +667,7 @@ String<0>& String<0>::SetStringLength(int32 length)
 			}
 
 			stringPointer[length] = 0;
+			logicalSize = size;
 		}
 	}
 	else
@@ -678,8 +690,9 @@ String<0>& String<0>::AppendString(const char *s, int32 length)
 		int32 size = logicalSize + length;
 		if (size > physicalSize)
 		{
-			physicalSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
-			char *newPointer = new char[physicalSize];
+			int32 newSize = Max(GetPhysicalSize(size), physicalSize + physicalSize / 2);
+			char *newPointer = new char[newSize];
+			physicalSize = newSize;
 			Text::CopyText(stringPointer, newPointer);
 			Text::CopyText(s, newPointer + logicalSize - 1, length);
 
@@ -806,9 +819,10 @@ String<0>& String<0>::EncodeEscapeSequences(void)
 
 	if (maxCharSize > 1)
 	{
+		int32 newSize = GetPhysicalSize(encodedLength + 1);
+		char *encodedString = new char[newSize];
+		physicalSize = newSize;
 		logicalSize = encodedLength + 1;
-		physicalSize = GetPhysicalSize(logicalSize);
-		char *encodedString = new char[physicalSize];
 
 		byte = reinterpret_cast<uint8 *>(stringPointer);
 		uint8 *encodedByte = reinterpret_cast<uint8 *>(encodedString);
-- 
2.43.0


From dbbad438867ee1cf8db6450c76dc1f480eaf74c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 35/58] fix: free parsed values when an allocation fails

A value that could not be added to its array or object was leaked, and an
allocation failing for a number, boolean or null was reported as bad syntax.
---
 Code/Json4C4/C4Json.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index 78a22c0..b3a6093 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -1206,21 +1206,23 @@ namespace C4
             text = start;
 
             status = ParseValue<NumberValue>( value, text );
-            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros )
+            if ( status == Status::kOk || status == Status::kNumbersCannotHaveLeadingZeros || status == Status::kException )
             {
                 return status;
             }
             text = start;
 
-            if ( ParseValue<BoolValue>( value, text ) == Status::kOk )
+            status = ParseValue<BoolValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
-            if ( ParseValue<NullValue>( value, text ) == Status::kOk )
+            status = ParseValue<NullValue>( value, text );
+            if ( status == Status::kOk || status == Status::kException )
             {
-                return Status::kOk;
+                return status;
             }
             text = start;
 
@@ -1573,6 +1575,7 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
                     return status;
                 }
 
@@ -1745,6 +1748,7 @@ namespace C4
 
                 if ( status != Status::kOk )
                 {
+                    delete jsonValue;
                     return status;
                 }
 
-- 
2.43.0


From a2903a6eeb1d4aa06761d85ff146e22f1cfa922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 36/58] fix: do not terminate when an allocation fails while
 writing

---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index b3a6093..a76350c 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -2044,7 +2044,7 @@ namespace C4
 
             Array<char> indentCharArray;
 
-            Status status = rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray );
+            Status status = MayThrow( [ & ]() { return rootJsonValue->Write( file, indentationLength, indentationChar, indentCharArray ); } );
 
             file.CloseFile();
 
-- 
2.43.0


From ea7eac33348284bef84e659fd5d33035976c2088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:07 +0000
Subject: [PATCH 37/58] fix: handle failing allocations in named values and
 maps

They terminated the process, since names were looked up in noexcept functions
without a handler, or leaked the element at hand.
---
 Code/Json4C4/C4Json.h | 113 +++++++++++++++++++++++++++---------------
 1 file changed, 74 insertions(+), 39 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 27fbf5f..de42923 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -677,14 +677,18 @@ namespace C4
                 return Status::kInvalidValueType;
             }
 
-            const Value* associateValue = objectValue->FindMapElement( name );
+            return MayThrow(
+                [ & ]()
+                {
+                    const Value* associateValue = objectValue->FindMapElement( name );
 
-            if ( !associateValue )
-            {
-                return Status::kNameNotPresent;
-            }
+                    if ( !associateValue )
+                    {
+                        return Status::kNameNotPresent;
+                    }
 
-            return MayThrow( [ & ]() { return Validate( associateValue, data ); } );
+                    return Validate( associateValue, data );
+                } );
         }
 
         template <class T>
@@ -697,14 +701,18 @@ namespace C4
                 return Status::kInvalidValueType;
             }
 
-            const Value* associateValue = objectValue->FindMapElement( name );
+            return MayThrow(
+                [ & ]()
+                {
+                    const Value* associateValue = objectValue->FindMapElement( name );
 
-            if ( !associateValue )
-            {
-                return Status::kNameNotPresent;
-            }
+                    if ( !associateValue )
+                    {
+                        return Status::kNameNotPresent;
+                    }
 
-            return MayThrow( [ & ]() { return Deserialize( associateValue, data ); } );
+                    return Deserialize( associateValue, data );
+                } );
         }
 
         template <class T>
@@ -915,7 +923,7 @@ namespace C4
 
                         if ( status == Status::kOk )
                         {
-                            data.AppendArrayElement( ( temp ) );
+                            data.AppendArrayElement( static_cast<T&&>( temp ) );
                         }
                         else
                         {
@@ -1047,16 +1055,16 @@ namespace C4
                             status = MayThrow(
                                 [ & ]()
                                 {
-                                    dataMapElement = new DataMapElementType;
+                                    dataMapElement       = new DataMapElementType;
+                                    dataMapElement->name = key;
                                     return Status::kOk;
                                 } );
 
                             if ( status != Status::kOk )
                             {
+                                delete dataMapElement;
                                 return status;
                             }
-
-                            dataMapElement->name = key;
                         }
 
                         if constexpr ( Detail::HasDeserializeMember<T>::Value )
@@ -1120,24 +1128,36 @@ namespace C4
                     for ( const auto* dataMapElement : data )
                     {
                         Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElement->name;
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = dataMapElement->data.Serialize( elem );
-                        }
-                        else
-                        {
-                            status = Serialize( elem, dataMapElement->data );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                elem->name = dataMapElement->name;
+
+                                Status status;
+
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    status = dataMapElement->data.Serialize( elem );
+                                }
+                                else
+                                {
+                                    status = Serialize( elem, dataMapElement->data );
+                                }
+
+                                if ( status == Status::kOk )
+                                {
+                                    objectValue->InsertAccountedMapElement( elem );
+                                }
+
+                                return status;
+                            } );
 
                         if ( status != Status::kOk )
                         {
                             delete elem;
                             return status;
                         }
-
-                        objectValue->InsertAccountedMapElement( elem );
                     }
                     return Status::kOk;
                 } );
@@ -1393,8 +1413,11 @@ namespace C4
                     T      temp;
                     Status status;
 
-                    for ( auto const& [ dataMapElementKey, dataMapElementData ] : data )
+                    for ( auto const& dataMapElement : data )
                     {
+                        const std::string& dataMapElementKey  = dataMapElement.first;
+                        const T&           dataMapElementData = dataMapElement.second;
+
                         // A String<> ends at its first null character.
                         if ( dataMapElementKey.find( '\0' ) != std::string::npos )
                         {
@@ -1402,24 +1425,36 @@ namespace C4
                         }
 
                         Value* elem = Detail::CreateValueFor( temp );
-                        elem->name  = dataMapElementKey.c_str();
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = dataMapElementData.Serialize( elem );
-                        }
-                        else
-                        {
-                            status = Serialize( elem, dataMapElementData );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                elem->name = dataMapElementKey.c_str();
+
+                                Status status;
+
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    status = dataMapElementData.Serialize( elem );
+                                }
+                                else
+                                {
+                                    status = Serialize( elem, dataMapElementData );
+                                }
+
+                                if ( status == Status::kOk )
+                                {
+                                    objectValue->InsertAccountedMapElement( elem );
+                                }
+
+                                return status;
+                            } );
 
                         if ( status != Status::kOk )
                         {
                             delete elem;
                             return status;
                         }
-
-                        objectValue->InsertAccountedMapElement( elem );
                     }
 
                     return Status::kOk;
-- 
2.43.0


From 644f6dd689b38bb285084a043ab80cf3c8ac7f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:12 +0000
Subject: [PATCH 38/58] fix: do not cut line and column out of error messages

There was room for only six digits of both together.
---
 Code/Json4C4/C4Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Json4C4/C4Json.cpp b/Code/Json4C4/C4Json.cpp
index a76350c..4050173 100644
--- a/Code/Json4C4/C4Json.cpp
+++ b/Code/Json4C4/C4Json.cpp
@@ -2076,7 +2076,7 @@ namespace C4
 
             if ( parseResult.errorLine != 0 && parseResult.status != Status::kException )
             {
-                string += String<24>( ". Line: " ) + String<24>( parseResult.errorLine ) + String<24>( ", column: " ) + String<24>( parseResult.errorColumn );
+                string += String<48>( ". Line: " ) + parseResult.errorLine + ", column: " + parseResult.errorColumn;
             }
 
             return string;
-- 
2.43.0


From 73f63b51c7bf7303adb4a47a0248ef85058ddf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 39/58] fix: require the names that an optional value requires

An optional object that is present but lacks one of its own required names was
taken to be absent, after a part of it had been deserialized.
---
 Code/Json4C4/C4Json.h | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index de42923..17dd919 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -667,6 +667,21 @@ namespace C4
 
         TERATHON_API String<256> ParseResultToString( const ParseResult& parseResult ) noexcept;
 
+        namespace Detail
+        {
+            inline Status CheckNamePresent( const Value* value, const char* name ) noexcept
+            {
+                const ObjectValue* objectValue = value->AsJsonObjectValue();
+
+                if ( !objectValue )
+                {
+                    return Status::kInvalidValueType;
+                }
+
+                return MayThrow( [ & ]() { return objectValue->FindMapElement( name ) ? Status::kOk : Status::kNameNotPresent; } );
+            }
+        } // namespace Detail
+
         template <class T>
         Status Validate( const Value* value, const char* name, const T& data ) noexcept
         {
@@ -1497,9 +1512,19 @@ namespace C4
         template <class T, class... Args>
         Status ValidateProto( const Value* value, Detail::Optional, const char* name, const T& data, Args&&... args ) noexcept
         {
-            Status status = Validate( value, name, data );
+            Status status = Detail::CheckNamePresent( value, name );
+
+            // Only this name is optional, not the ones that its value requires.
+            if ( status == Status::kOk )
+            {
+                status = Validate( value, name, data );
+            }
+            else if ( status == Status::kNameNotPresent )
+            {
+                status = Status::kOk;
+            }
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            if ( status != Status::kOk )
             {
                 return status;
             }
@@ -1541,9 +1566,19 @@ namespace C4
         template <class T, class... Args>
         Status DeserializeProto( const Value* value, Detail::Optional, const char* name, T& data, Args&&... args ) noexcept
         {
-            Status status = Deserialize( value, name, data );
+            Status status = Detail::CheckNamePresent( value, name );
 
-            if ( status != Status::kOk && status != Status::kNameNotPresent )
+            // Only this name is optional, not the ones that its value requires.
+            if ( status == Status::kOk )
+            {
+                status = Deserialize( value, name, data );
+            }
+            else if ( status == Status::kNameNotPresent )
+            {
+                status = Status::kOk;
+            }
+
+            if ( status != Status::kOk )
             {
                 return status;
             }
-- 
2.43.0


From 92a1ee3af20686ec125b1f9cebad5bf6101c62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:37 +0000
Subject: [PATCH 40/58] fix: let maps be elements of maps

---
 Code/Json4C4/C4Json.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index 17dd919..aa4ddea 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -230,6 +230,11 @@ namespace C4
         {
         public:
             using ElementType = ObjectMapElement<ValueType>;
+
+            // Not an aggregate, so that maps can be elements of maps.
+            ObjectMap()
+            {
+            }
         };
 
         class Value : public Terathon::MapElement<Value>
-- 
2.43.0


From 1f600d967984377fcc10fb903f7a8a0672c56108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:26 +0000
Subject: [PATCH 41/58] fix: let types with arrays be elements of validated
 arrays

---
 Code/Terathon/TSArray.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index 51363db..41d053f 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -344,7 +344,7 @@ namespace Terathon
 
 		public:
 
-			explicit Array();
+			Array();
 			Array(const Array& array);
 			Array(Array&& array);
 			~Array();
@@ -686,7 +686,8 @@ namespace Terathon
 
 		public:
 
-			explicit Array(int32 count = 0);
+			Array() : Array(0) {}
+			explicit Array(int32 count);
 			Array(const Array& array);
 			Array(Array&& array);
 			~Array();
-- 
2.43.0


From 73a11fc83493c29066cb5fdd13046de74da17183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:37 +0000
Subject: [PATCH 42/58] fix: allow assigning part of a string to itself

---
 Code/Terathon/TSString.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index adcc28f..60035bf 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -335,6 +335,11 @@ String<0>& String<0>::Set(const char *s, int32 length)
 		}
 	}
 
+	if ((length > 0) && (s >= stringPointer) && (s < stringPointer + logicalSize))
+	{
+		return (*this = String(s, length));
+	}
+
 	if (length > 0)
 	{
 		Resize(length + 1);
@@ -407,6 +412,11 @@ String<0>& String<0>::operator =(const String& s)
 
 String<0>& String<0>::operator =(const char *s)
 {
+	if ((s >= stringPointer) && (s < stringPointer + logicalSize))
+	{
+		return (*this = String(s));
+	}
+
 	int32 length = Text::GetTextLength(s);
 	if (length > 0)
 	{
-- 
2.43.0


From ea98a79b254badc61c67f18ac11e21df348bcddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:38 +0000
Subject: [PATCH 43/58] fix: end the text appended by AppendString at its
 terminator

---
 Code/Terathon/TSString.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Code/Terathon/TSString.cpp b/Code/Terathon/TSString.cpp
index 60035bf..cfb94d6 100644
--- a/Code/Terathon/TSString.cpp
+++ b/Code/Terathon/TSString.cpp
@@ -695,6 +695,15 @@ String<0>& String<0>::SetStringLength(int32 length)
 
 String<0>& String<0>::AppendString(const char *s, int32 length)
 {
+	for (machine a = 0; a < length; a++)
+	{
+		if (s[a] == 0)
+		{
+			length = int32(a);
+			break;
+		}
+	}
+
 	if (length > 0)
 	{
 		int32 size = logicalSize + length;
-- 
2.43.0


From 5569113e1ce26631d49a65a480a58ba9844c3e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:36 +0000
Subject: [PATCH 44/58] fix: read negative exponents in ReadFloat

---
 Code/Terathon/TSText.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 28b18dd..6bc6ee3 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1578,9 +1578,12 @@ int32 Text::ReadFloat(const char *text, char *number, int32 max)
 		}
 		else
 		{
-			if ((c == '-') && (expneg))
+			if (c == '-')
 			{
-				break;
+				if (expneg)
+				{
+					break;
+				}
 			}
 			else if (c - '0' >= 10U)
 			{
-- 
2.43.0


From 3bc3bcb8ef935e6d4c87ae6d338d02658def319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:38 +0000
Subject: [PATCH 45/58] fix: ignore the case of the first character in
 FindTextCaseless

---
 Code/Terathon/TSText.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 6bc6ee3..f412ed1 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1113,16 +1113,25 @@ int32 Text::FindText(const char *s1, const char *s2)
 int32 Text::FindTextCaseless(const char *s1, const char *s2)
 {
 	const char *start = s1;
-	int32 first = *reinterpret_cast<const uint8 *>(s2);
+	uint32 first = *reinterpret_cast<const uint8 *>(s2);
+	if (first - 'a' < 26U)
+	{
+		first -= 32;
+	}
 
 	for (;;)
 	{
-		int32 c = *reinterpret_cast<const uint8 *>(s1++);
+		uint32 c = *reinterpret_cast<const uint8 *>(s1++);
 		if (c == 0)
 		{
 			break;
 		}
 
+		if (c - 'a' < 26U)
+		{
+			c -= 32;
+		}
+
 		if (c == first)
 		{
 			const uint8 *s3 = reinterpret_cast<const uint8 *>(s1);
-- 
2.43.0


From 47484b5044d4dab659594acd9c719fbb7c975c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:39 +0000
Subject: [PATCH 46/58] fix: do not write a surrogate pair past the maximum in
 ConvertStringToWideText

---
 Code/Terathon/TSText.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index f412ed1..132eacb 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -463,6 +463,11 @@ void Text::ConvertStringToWideText(const char *string, uint16 *wideText, int32 m
 		}
 		else
 		{
+			if (max < 2)
+			{
+				break;
+			}
+
 			code -= 0x010000U;
 			wideText[0] = uint16((code >> 10) + 0xD800U);
 			wideText[1] = uint16((code & 0x03FF) + 0xDC00U);
-- 
2.43.0


From 182a7b1b0f4f1df5500d675c1ed102662dae2cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:40 +0000
Subject: [PATCH 47/58] fix: avoid signed overflow in FloatToString

---
 Code/Terathon/TSText.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 132eacb..c7f6df5 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1377,7 +1377,7 @@ int32 Text::FloatToString(float num, char *text, int32 max)
 	if (exponent >= 0)
 	{
 		int32 whole = mantissa >> (23 - exponent);
-		mantissa = (mantissa << exponent) & 0x007FFFFF;
+		mantissa = int32(uint32(mantissa) << exponent) & 0x007FFFFF;
 
 		len += IntegerToString(whole, &text[len], max - len);
 		if (len < max)
-- 
2.43.0


From 65255f74960b8f2e5bf088b55042f6d6a1635e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:41 +0000
Subject: [PATCH 48/58] fix: order numbered text consistently

---
 Code/Terathon/TSText.cpp | 121 +++++++++++++++++----------------------
 1 file changed, 51 insertions(+), 70 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index c7f6df5..0149a8d 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -942,6 +942,51 @@ bool Text::CompareTextLessEqualCaseless(const char *s1, const char *s2, int32 ma
 	return (true);
 }
 
+// Compares the decimal numbers at the beginnings of two strings and moves the pointers behind them.
+// Equal numbers are ordered by their count of digits.
+
+static int32 CompareNumbers(const char **s1, const char **s2)
+{
+	const char *digit[2] = {*s1, *s2};
+	const char *end[2];
+
+	for (machine a = 0; a < 2; a++)
+	{
+		while (*digit[a] == '0')
+		{
+			digit[a]++;
+		}
+
+		end[a] = digit[a];
+		while (*reinterpret_cast<const uint8 *>(end[a]) - uint32('0') < 10U)
+		{
+			end[a]++;
+		}
+	}
+
+	machine count1 = end[0] - *s1;
+	machine count2 = end[1] - *s2;
+	*s1 = end[0];
+	*s2 = end[1];
+
+	machine length1 = end[0] - digit[0];
+	machine length2 = end[1] - digit[1];
+	if (length1 != length2)
+	{
+		return ((length1 < length2) ? -1 : 1);
+	}
+
+	for (machine a = 0; a < length1; a++)
+	{
+		if (digit[0][a] != digit[1][a])
+		{
+			return ((digit[0][a] < digit[1][a]) ? -1 : 1);
+		}
+	}
+
+	return ((count1 < count2) ? -1 : (count1 > count2) ? 1 : 0);
+}
+
 bool Text::CompareNumberedTextLessThan(const char *s1, const char *s2)
 {
 	for (;;)
@@ -954,42 +999,10 @@ bool Text::CompareNumberedTextLessThan(const char *s1, const char *s2)
 
 		if ((xnum < 10U) && (ynum < 10U))
 		{
-			int32 xcount = 1;
-			int32 ycount = 1;
-
-			for (;;)
-			{
-				x = *reinterpret_cast<const uint8 *>(s1) - '0';
-				if (x >= 10U)
-				{
-					break;
-				}
-
-				xnum = xnum * 10 + x;
-				xcount++;
-				s1++;
-			}
-
-			for (;;)
+			int32 order = CompareNumbers(&--s1, &--s2);
+			if (order != 0)
 			{
-				y = *reinterpret_cast<const uint8 *>(s2) - '0';
-				if (y >= 10U)
-				{
-					break;
-				}
-
-				ynum = ynum * 10 + y;
-				ycount++;
-				s2++;
-			}
-
-			if (xnum != ynum)
-			{
-				return (xnum < ynum);
-			}
-			else if (xcount < ycount)
-			{
-				return (true);
+				return (order < 0);
 			}
 		}
 		else
@@ -1014,42 +1027,10 @@ bool Text::CompareNumberedTextLessThanCaseless(const char *s1, const char *s2)
 
 		if ((xnum < 10U) && (ynum < 10U))
 		{
-			int32 xcount = 1;
-			int32 ycount = 1;
-
-			for (;;)
-			{
-				x = *reinterpret_cast<const uint8 *>(s1) - '0';
-				if (x >= 10U)
-				{
-					break;
-				}
-
-				xnum = xnum * 10 + x;
-				xcount++;
-				s1++;
-			}
-
-			for (;;)
-			{
-				y = *reinterpret_cast<const uint8 *>(s2) - '0';
-				if (y >= 10U)
-				{
-					break;
-				}
-
-				ynum = ynum * 10 + y;
-				ycount++;
-				s2++;
-			}
-
-			if (xnum != ynum)
-			{
-				return (xnum < ynum);
-			}
-			else if (xcount < ycount)
+			int32 order = CompareNumbers(&--s1, &--s2);
+			if (order != 0)
 			{
-				return (true);
+				return (order < 0);
 			}
 		}
 		else
-- 
2.43.0


From 817c0fcba2e82d5f03804d1b9a4a042175c14092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:42 +0000
Subject: [PATCH 49/58] fix: do not count characters past the terminator

---
 Code/Terathon/TSText.cpp | 73 +++++++++++-----------------------------
 1 file changed, 19 insertions(+), 54 deletions(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 0149a8d..831feec 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -181,6 +181,22 @@ int32 Text::GetUnicodeCharByteCount(uint32 code)
 	return (0);
 }
 
+// Returns the number of bytes that the first byte of a character announces, but at most max, and without the terminator of the text.
+
+static int32 GetUnicodeCharSize(const char *text, int32 max)
+{
+	int32 size = Text::GetNextUnicodeCharByteCount(text, max);
+	for (machine a = 1; a < size; a++)
+	{
+		if (text[a] == 0)
+		{
+			return (int32(a));
+		}
+	}
+
+	return (size);
+}
+
 int32 Text::GetUnicodeCharCount(const char *text)
 {
 	int32 count = 0;
@@ -192,22 +208,7 @@ int32 Text::GetUnicodeCharCount(const char *text)
 			break;
 		}
 
-		if ((c < 0xC0U) || (c >= 0xF8U))
-		{
-			text++;
-		}
-		else if (c < 0xE0U)
-		{
-			text += 2;
-		}
-		else if (c < 0xF0U)
-		{
-			text += 3;
-		}
-		else
-		{
-			text += 4;
-		}
+		text += GetUnicodeCharSize(text, 4);
 	}
 
 	return (count);
@@ -225,22 +226,7 @@ int32 Text::GetUnicodeCharCount(const char *text, int32 max)
 			break;
 		}
 
-		if ((c < 0xC0U) || (c >= 0xF8U))
-		{
-			text++;
-		}
-		else if (c < 0xE0U)
-		{
-			text += 2;
-		}
-		else if (c < 0xF0U)
-		{
-			text += 3;
-		}
-		else
-		{
-			text += 4;
-		}
+		text += GetUnicodeCharSize(text, int32(end - text));
 	}
 
 	return (count);
@@ -301,28 +287,7 @@ int32 Text::GetUnicodeCharStringByteCount(const char *text, int32 charCount)
 			break;
 		}
 
-		int32 size = 1;
-		if (c < 0)
-		{
-			uint32 byte = c & 0xFF;
-			if (byte >= 0xC0U)
-			{
-				if (byte < 0xE0U)
-				{
-					size += 1;
-				}
-				else if (byte < 0xF0U)
-				{
-					size += 2;
-				}
-				else if (byte < 0xF8U)
-				{
-					size += 3;
-				}
-			}
-		}
-
-		count += size;
+		count += GetUnicodeCharSize(&text[count], 4);
 	}
 
 	return (count);
-- 
2.43.0


From 5e68b8d102a2a93c6851b0deedfeb19965f754c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:52 +0000
Subject: [PATCH 50/58] fix: format the smallest floats without dividing by
 zero

---
 Code/Terathon/TSText.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Terathon/TSText.cpp b/Code/Terathon/TSText.cpp
index 831feec..8104620 100644
--- a/Code/Terathon/TSText.cpp
+++ b/Code/Terathon/TSText.cpp
@@ -1302,7 +1302,7 @@ int32 Text::FloatToString(float num, char *text, int32 max)
 	if ((absolute < 1.0e-4F) || (!(absolute < 1.0e5F)))
 	{
 		float f = Floor(Log(absolute) * Math::one_over_ln_10);
-		absolute /= Exp(f * Math::ln_10);
+		absolute = (f < 0.0F) ? absolute * Exp(-f * Math::ln_10) : absolute / Exp(f * Math::ln_10);
 		power = int32(f);
 
 		binary = *reinterpret_cast<int32 *>(&absolute);
-- 
2.43.0


From c3b485953221a0adae3a2337867f03867e6885c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:09 +0000
Subject: [PATCH 51/58] fix: FloorCeil gives the floor of large odd numbers

---
 Code/Terathon/TSSimd.h | 62 ++++--------------------------------------
 1 file changed, 6 insertions(+), 56 deletions(-)

diff --git a/Code/Terathon/TSSimd.h b/Code/Terathon/TSSimd.h
index 059eaa7..9e4f6e8 100644
--- a/Code/Terathon/TSSimd.h
+++ b/Code/Terathon/TSSimd.h
@@ -1516,66 +1516,16 @@ namespace Terathon
 
 	inline void VecFloorCeil(const vec_float& v, vec_float *f, vec_float *c)
 	{
-		#if defined(TERATHON_SSE)
-
-			#if defined(TERATHON_SSE4)
-
-				*f = _mm_round_ps(v, _MM_FROUND_TO_NEG_INF | _MM_FROUND_NO_EXC);
-				*c = _mm_round_ps(v, _MM_FROUND_TO_POS_INF | _MM_FROUND_NO_EXC);
-
-			#else
-
-				const vec_float one = VecLoadVectorConstant<0x3F800000>();
-				const vec_float two23 = VecLoadVectorConstant<0x4B000000>();
-
-				vec_float result = _mm_sub_ps(_mm_add_ps(_mm_add_ps(_mm_sub_ps(v, two23), two23), two23), two23);
-				*f = _mm_sub_ps(result, _mm_and_ps(one, _mm_cmplt_ps(v, result)));
-				*c = _mm_add_ps(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));
-
-			#endif
-
-		#elif defined(TERATHON_NEON)
-
-			const vec_uint32 one = vdupq_n_u32(0x3F800000);
-			const vec_float two23 = vdupq_n_f32(8388608.0F);
-
-			vec_float result = vsubq_f32(vaddq_f32(vaddq_f32(vsubq_f32(v, two23), two23), two23), two23);
-			*f = vsubq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(v, result))));
-			*c = vaddq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(result, v))));
-
-		#endif
+		vec_float result = VecFloor(v);
+		*c = VecCeil(v);
+		*f = result;
 	}
 
 	inline void VecFloorCeilScalar(const vec_float& v, vec_float *f, vec_float *c)
 	{
-		#if defined(TERATHON_SSE)
-
-			#if defined(TERATHON_SSE4)
-
-				*f = _mm_round_ps(v, _MM_FROUND_TO_NEG_INF | _MM_FROUND_NO_EXC);
-				*c = _mm_round_ps(v, _MM_FROUND_TO_POS_INF | _MM_FROUND_NO_EXC);
-
-			#else
-
-				const vec_float one = VecLoadVectorConstant<0x3F800000>();
-				const vec_float two23 = VecLoadVectorConstant<0x4B000000>();
-
-				vec_float result = _mm_sub_ss(_mm_add_ss(_mm_add_ss(_mm_sub_ss(v, two23), two23), two23), two23);
-				*f = _mm_sub_ss(result, _mm_and_ps(one, _mm_cmplt_ps(v, result)));
-				*c = _mm_add_ss(result, _mm_and_ps(one, _mm_cmplt_ps(result, v)));
-
-			#endif
-
-		#elif defined(TERATHON_NEON)
-
-			const vec_uint32 one = vdupq_n_u32(0x3F800000);
-			const vec_float two23 = vdupq_n_f32(8388608.0F);
-
-			vec_float result = vsubq_f32(vaddq_f32(vaddq_f32(vsubq_f32(v, two23), two23), two23), two23);
-			*f = vsubq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(v, result))));
-			*c = vaddq_f32(result, vreinterpretq_f32_u32(vandq_u32(one, vcltq_f32(result, v))));
-
-		#endif
+		vec_float result = VecFloorScalar(v);
+		*c = VecCeilScalar(v);
+		*f = result;
 	}
 
 	inline void VecPositiveFloorCeil(const vec_float& v, vec_float *f, vec_float *c)
-- 
2.43.0


From e099e521639579008ee72c5768b04478b641cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:09 +0000
Subject: [PATCH 52/58] fix: the sign of the least integer is negative

---
 Code/Terathon/TSBasic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Terathon/TSBasic.h b/Code/Terathon/TSBasic.h
index 0dc8e42..bb5bfcb 100644
--- a/Code/Terathon/TSBasic.h
+++ b/Code/Terathon/TSBasic.h
@@ -42,12 +42,12 @@ namespace Terathon
 
 	inline int32 Sgn(int32 x)
 	{
-		return ((x >> 31) - (-x >> 31));
+		return ((x > 0) - (x < 0));
 	}
 
 	inline int64 Sgn64(int64 x)
 	{
-		return ((x >> 63) - (-x >> 63));
+		return ((x > 0) - (x < 0));
 	}
 
 
-- 
2.43.0


From df32ff74d3d18a55ab9f168ecea9b7d0e571cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:09 +0000
Subject: [PATCH 53/58] fix: exchanging a value with itself keeps it

---
 Code/Terathon/TSBasic.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/Terathon/TSBasic.h b/Code/Terathon/TSBasic.h
index bb5bfcb..5861cc0 100644
--- a/Code/Terathon/TSBasic.h
+++ b/Code/Terathon/TSBasic.h
@@ -115,9 +115,9 @@ namespace Terathon
 	template <typename type>
 	inline void Exchange(type& x, type& y)
 	{
-		x ^= y;
-		y ^= x;
-		x ^= y;
+		type t = x;
+		x = y;
+		y = t;
 	}
 
 	template <>
-- 
2.43.0


From a043be71336e8f8d7dec72f39c52fe3d27273135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:09 +0000
Subject: [PATCH 54/58] fix: use the sine's coefficients in their own order

---
 Code/Terathon/TSMath.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/Terathon/TSMath.cpp b/Code/Terathon/TSMath.cpp
index 5f6159a..7c0871b 100644
--- a/Code/Terathon/TSMath.cpp
+++ b/Code/Terathon/TSMath.cpp
@@ -234,7 +234,7 @@ float Terathon::Sin(float x)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		vec_float sine = VecMaddScalar(sine_alpha, cosine_beta, VecMulScalar(cosine_alpha, sine_beta));
@@ -275,7 +275,7 @@ float Terathon::Cos(float x)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		VecStoreX(VecSubScalar(VecMulScalar(cosine_alpha, cosine_beta), VecMulScalar(sine_alpha, sine_beta)), &result);
@@ -313,7 +313,7 @@ float Terathon::Tan(float x)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		VecStoreX(VecMaddScalar(sine_alpha, cosine_beta, VecMulScalar(cosine_alpha, sine_beta)), &sine);
@@ -356,7 +356,7 @@ void Terathon::CosSin(float x, float *c, float *s)
 		vec_float sine_alpha = VecLoadScalar(&cossin.y);
 
 		vec_float b2 = VecMulScalar(b, b);
-		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3E2AAAAB>(), VecLoadScalarConstant<0x3C088889>()), b);
+		vec_float sine_beta = VecNmsubScalar(VecMulScalar(b, b2), VecNmsubScalar(b2, VecLoadScalarConstant<0x3C088889>(), VecLoadScalarConstant<0x3E2AAAAB>()), b);
 		vec_float cosine_beta = VecNmsubScalar(b2, VecNmsub(b2, VecLoadScalarConstant<0x3D2AAAAB>(), VecLoadScalarConstant<0x3F000000>()), VecLoadScalarConstant<0x3F800000>());
 
 		vec_float sine = VecMaddScalar(sine_alpha, cosine_beta, VecMulScalar(cosine_alpha, sine_beta));
-- 
2.43.0


From b7becf08e1814e347a7e8348d546fc45a4fb9d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:10 +0000
Subject: [PATCH 55/58] fix: the arc cosine of negative zero is a quarter turn

---
 Code/Terathon/TSMath.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Terathon/TSMath.cpp b/Code/Terathon/TSMath.cpp
index 7c0871b..bd5e32d 100644
--- a/Code/Terathon/TSMath.cpp
+++ b/Code/Terathon/TSMath.cpp
@@ -391,6 +391,11 @@ float Terathon::Arcsin(float y)
 
 float Terathon::Arccos(float x)
 {
+	if (x == 0.0F)
+	{
+		return (Math::tau_over_4);
+	}
+
 	float r = Arctan(Sqrt(1.0F - x * x) / x);
 	return ((x < 0.0F) ? r + Math::tau_over_2 : r);
 }
-- 
2.43.0


From 1b642ce8d285fe8f3afd10713506ead75ccc06e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:10 +0000
Subject: [PATCH 56/58] fix: the exponential of large arguments is infinite

---
 Code/Terathon/TSMath.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Code/Terathon/TSMath.cpp b/Code/Terathon/TSMath.cpp
index bd5e32d..d0b1f72 100644
--- a/Code/Terathon/TSMath.cpp
+++ b/Code/Terathon/TSMath.cpp
@@ -483,9 +483,9 @@ float Terathon::Arctan(float y, float x)
 
 float Terathon::Exp(float x)
 {
-	// Values of exp(n) for integers n in the range [-88, 91].
+	// Values of exp(n) for integers n in the range [-88, 89].
 
-	alignas(64) static const uint32 table[180] =
+	alignas(64) static const uint32 table[178] =
 	{
 		0x00000000, 0x00B33687, 0x01739362, 0x022586E0, 0x02E0F96D, 0x0398E2CB, 0x044FCB22, 0x050D35D7,
 		0x05BFECBA, 0x06826D27, 0x07314490, 0x07F0EE94, 0x08A3BAF0, 0x095E884F, 0x0A1739FB, 0x0ACD89C1,
@@ -512,6 +512,16 @@ float Terathon::Exp(float x)
 		0x7EF882B7, 0x7F800000
 	};
 
+	if (x >= 89.0F)
+	{
+		return (Math::infinity);
+	}
+
+	if (x < -88.0F)
+	{
+		return (0.0F);
+	}
+
 	float f = Floor(x);
 	int32 i = int32(f) + 88;
 	if (i > 0)
@@ -527,7 +537,7 @@ float Terathon::Exp(float x)
 		r = r * x + 1.0F / 6.0F;
 		r = r * x + 0.5F;
 
-		return ((r * (x * x) + (x + 1.0F)) * reinterpret_cast<const float *>(table)[(i < 179) ? i : 179]);
+		return ((r * (x * x) + (x + 1.0F)) * reinterpret_cast<const float *>(table)[i]);
 	}
 
 	return (0.0F);
-- 
2.43.0


From dbe972f10ec1715e91b1e5586bbfe665beb0e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:22 +0000
Subject: [PATCH 57/58] fix: free the value when a user's function throws
 during array serialization or map deserialization

---
 Code/Json4C4/C4Json.h | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/Code/Json4C4/C4Json.h b/Code/Json4C4/C4Json.h
index aa4ddea..5fffce2 100644
--- a/Code/Json4C4/C4Json.h
+++ b/Code/Json4C4/C4Json.h
@@ -987,14 +987,18 @@ namespace C4
                             return status;
                         }
 
-                        if constexpr ( Detail::HasSerializeMember<T>::Value )
-                        {
-                            status = element.Serialize( value );
-                        }
-                        else
-                        {
-                            status = Serialize( value, element );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                if constexpr ( Detail::HasSerializeMember<T>::Value )
+                                {
+                                    return element.Serialize( value );
+                                }
+                                else
+                                {
+                                    return Serialize( value, element );
+                                }
+                            } );
 
                         if ( status != Status::kOk )
                         {
@@ -1087,14 +1091,18 @@ namespace C4
                             }
                         }
 
-                        if constexpr ( Detail::HasDeserializeMember<T>::Value )
-                        {
-                            status = dataMapElement->data.Deserialize( objectValueMapElement );
-                        }
-                        else
-                        {
-                            status = Deserialize( objectValueMapElement, dataMapElement->data );
-                        }
+                        status = MayThrow(
+                            [ & ]()
+                            {
+                                if constexpr ( Detail::HasDeserializeMember<T>::Value )
+                                {
+                                    return dataMapElement->data.Deserialize( objectValueMapElement );
+                                }
+                                else
+                                {
+                                    return Deserialize( objectValueMapElement, dataMapElement->data );
+                                }
+                            } );
 
                         if ( status != Status::kOk )
                         {
-- 
2.43.0


From 98d156be2cb58d0a4d581506c85f2b086d6736c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:22 +0000
Subject: [PATCH 58/58] fix: free the elements of an array copy when copying
 one of them fails

---
 Code/Terathon/TSArray.h | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/Code/Terathon/TSArray.h b/Code/Terathon/TSArray.h
index 41d053f..01590ff 100644
--- a/Code/Terathon/TSArray.h
+++ b/Code/Terathon/TSArray.h
@@ -377,24 +377,20 @@ namespace Terathon
 	}
 
 	template <typename type, int32 baseCount>
-	Array<type, baseCount>::Array(const Array& array)
+	Array<type, baseCount>::Array(const Array& array) : Array()
 	{
-		elementCount = array.elementCount;
-
-		if (elementCount > baseCount)
+		if (array.elementCount > baseCount)
 		{
+			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * array.reservedCount]);
 			reservedCount = array.reservedCount;
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-		}
-		else
-		{
-			reservedCount = baseCount;
-			arrayPointer = reinterpret_cast<type *>(arrayStorage);
 		}
 
-		for (machine a = 0; a < elementCount; a++)
+		// The count grows with the elements, so that the destructor finds those that exist if copying one of them fails.
+
+		for (machine a = 0; a < array.elementCount; a++)
 		{
 			new(&arrayPointer[a]) type(array.arrayPointer[a]);
+			elementCount++;
 		}
 	}
 
@@ -721,22 +717,14 @@ namespace Terathon
 	}
 
 	template <typename type>
-	Array<type, 0>::Array(const Array& array)
+	Array<type, 0>::Array(const Array& array) : Array(array.reservedCount)
 	{
-		elementCount = array.elementCount;
-		reservedCount = array.reservedCount;
+		// The count grows with the elements, so that the destructor finds those that exist if copying one of them fails.
 
-		if (reservedCount > 0)
+		for (machine a = 0; a < array.elementCount; a++)
 		{
-			arrayPointer = reinterpret_cast<type *>(new char[sizeof(type) * reservedCount]);
-			for (machine a = 0; a < elementCount; a++)
-			{
-				new(&arrayPointer[a]) type(array.arrayPointer[a]);
-			}
-		}
-		else
-		{
-			arrayPointer = nullptr;
+			new(&arrayPointer[a]) type(array.arrayPointer[a]);
+			elementCount++;
 		}
 	}
 
-- 
2.43.0

