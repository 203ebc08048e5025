From 7a844de0272103c225f2bc9c2bf50cf8f319bde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:57 +0000
Subject: [PATCH 01/83] fix: do not treat non-ASCII characters as control
 characters when quoting

---
 xo/string/string_tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index ce39b70..e5a7b67 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -291,7 +291,7 @@ namespace xo
 			return "\\\"";
 		else if ( c == '\\' )
 			return "\\\\";
-		else if ( c < 32 )
+		else if ( (unsigned char)c < 32 )
 		{
 			switch ( c )
 			{
@@ -343,7 +343,7 @@ namespace xo
 		string sout = "\"";
 		for ( const char& c : s )
 		{
-			if ( c == '\"' || c == '\\' || c < 32 )
+			if ( c == '\"' || c == '\\' || (unsigned char)c < 32 )
 				sout += encode_char( c );
 			else sout += c;
 		}
@@ -354,7 +354,7 @@ namespace xo
 	bool needs_quotes( const string& s, const char* special_chars )
 	{
 		for ( const char& c : s )
-			if ( c < 33 || c == '\"' || strchr( special_chars, c ) )
+			if ( (unsigned char)c < 33 || c == '\"' || strchr( special_chars, c ) )
 				return true;
 		return s.empty();
 	}
-- 
2.43.0


From 03ee91e58cf15a025ea261c3e60d6e4b2aaca09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:57 +0000
Subject: [PATCH 02/83] fix: decode_char consumes at least one character

---
 xo/string/string_tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index e5a7b67..c1e2126 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -307,7 +307,7 @@ namespace xo
 	char decode_char( const char* buf, size_t buf_size, int* len )
 	{
 		xo_error_if( buf_size == 0, "Invalid buffer size" );
-		*len = 0;
+		*len = 1;
 		if ( *buf != '\\' || buf_size == 1 )
 			return *buf;
 
-- 
2.43.0


From 231a9f3ad3724aaa258c57c27d45f25f9d1ba30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:57 +0000
Subject: [PATCH 03/83] fix: try_unquoted no longer reads past the end of the
 string

---
 xo/string/string_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index c1e2126..f4f4407 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -368,11 +368,11 @@ namespace xo
 
 	string try_unquoted( const string& s )
 	{
-		if ( s.empty() || s.front() != '\"' || s.back() != '\"' )
+		if ( s.size() < 2 || s.front() != '\"' || s.back() != '\"' )
 			return s; // no quotes
 
 		string sout;
-		for ( auto it = s.begin() + 1; *it != '\"'; ++it )
+		for ( auto it = s.begin() + 1; it != s.end() && *it != '\"'; ++it )
 		{
 			if ( *it == '\\' )
 			{
-- 
2.43.0


From a4bd68ff378163ce63f8ef8eee07fdcb27ab70e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:49 +0000
Subject: [PATCH 04/83] fix: find_nth_str counts an occurrence at the start of
 the string once

---
 xo/string/string_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index f4f4407..7358393 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -53,8 +53,8 @@ namespace xo
 	index_t find_nth_str( const string& str, const string& substr, size_t n )
 	{
 		index_t idx = 0;
-		for ( ; n > 0 && idx != string::npos; --n )
-			idx = str.find( substr, idx > 0 ? idx + 1 : idx );
+		for ( index_t pos = 0; n > 0 && idx != string::npos; --n, pos = idx + 1 )
+			idx = str.find( substr, pos );
 		return idx;
 	}
 
-- 
2.43.0


From 4f4dc989982096d00f060b1bc3ecf9a893722c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:04 +0000
Subject: [PATCH 05/83] fix: version from text without build number has no
 build number

---
 xo/string/string_cast.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_cast.cpp b/xo/string/string_cast.cpp
index 05c5b43..a5bf4fc 100644
--- a/xo/string/string_cast.cpp
+++ b/xo/string/string_cast.cpp
@@ -135,8 +135,8 @@ namespace xo
 				&& from_str( vs[1], ver.minor_ )
 				&& from_str( vs[2], ver.patch_ ) )
 			{
-				if ( vs.size() >= 4 )
-					from_str( vs[3], ver.build_ );
+				if ( vs.size() < 4 || !from_str( vs[3], ver.build_ ) )
+					ver.build_ = 0;
 				ver.postfix_ = postfix;
 				return true;
 			}
-- 
2.43.0


From c9a959122ce619a5cdcca3c0a927e2d7d177125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 06/83] fix: a dot in the directory part of a path is not the
 start of an extension

---
 xo/filesystem/path.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xo/filesystem/path.cpp b/xo/filesystem/path.cpp
index df03073..b8ad81b 100644
--- a/xo/filesystem/path.cpp
+++ b/xo/filesystem/path.cpp
@@ -3,9 +3,16 @@
 
 namespace xo
 {
+	// position of the dot that starts the extension, only looking at the filename
+	static size_t extension_pos( const string& s )
+	{
+		size_t n = s.find_last_of( "./\\" );
+		return n != string::npos && s[ n ] == '.' ? n : string::npos;
+	}
+
 	path& path::replace_extension( const path& ext )
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = extension_pos( data_ );
 		if ( n != string::npos )
 			data_.erase( n ); // remove existing extension
 
@@ -58,13 +65,13 @@ namespace xo
 
 	path path::extension() const
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = extension_pos( data_ );
 		return n != string::npos ? path( data_.substr( n ) ) : path();
 	}
 
 	path path::extension_no_dot() const
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = extension_pos( data_ );
 		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
 	}
 
-- 
2.43.0


From 3a04b1e53a350ddab1f481e598ca2c886e638899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:45 +0000
Subject: [PATCH 07/83] fix: replacing the filename or stem of a path in the
 root directory keeps the root

---
 xo/filesystem/path.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/filesystem/path.cpp b/xo/filesystem/path.cpp
index b8ad81b..05b239e 100644
--- a/xo/filesystem/path.cpp
+++ b/xo/filesystem/path.cpp
@@ -32,15 +32,15 @@ namespace xo
 
 	path& path::replace_filename( const path& f )
 	{
-		remove_filename();
+		size_t n = last_separator_pos();
+		data_.erase( n != string::npos ? n + 1 : 0 ); // keep separator, so that the root is preserved
 		return *this /= f;
 	}
 
 	path& path::replace_stem( const path& stem )
 	{
 		auto ext = extension();
-		remove_filename();
-		return *this /= stem + ext;
+		return replace_filename( stem + ext );
 	}
 
 	path& path::concat_stem( const string_type& postfix )
-- 
2.43.0


From d2c0102310f92f1e87c46d531829f0959cc81f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 08/83] fix: char_stream tokens keep text before a quote, and
 empty quoted tokens before an operator

---
 xo/serialization/char_stream.cpp | 5 ++++-
 xo/serialization/char_stream.h   | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index e153bc6..29f2f6f 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -62,6 +62,7 @@ namespace xo
 	{
 		skip_delimiters();
 		string s;
+		token_quoted_ = false;
 		cur_pos_end = const_cast<char*>( cur_pos );
 		while ( good() )
 		{
@@ -75,7 +76,9 @@ namespace xo
 			else if ( strchr( quotations_.c_str(), *cur_pos_end ) ) // check for quote
 			{
 				// this is a part between quotes and must be decoded
+				s += string( cur_pos, size_t( cur_pos_end - cur_pos ) );
 				cur_pos = cur_pos_end;
+				token_quoted_ = true;
 				char quote_char = getc();
 				while ( good() )
 				{
@@ -97,7 +100,7 @@ namespace xo
 			}
 			else if ( auto opstr = check_operator( cur_pos_end ) ) // check for operator
 			{
-				if ( cur_pos == cur_pos_end && s.empty() )
+				if ( cur_pos == cur_pos_end && s.empty() && !token_quoted_ )
 				{
 					s = *opstr; // token is an operator
 					cur_pos += opstr->length();
diff --git a/xo/serialization/char_stream.h b/xo/serialization/char_stream.h
index 2763bd4..9df0aec 100644
--- a/xo/serialization/char_stream.h
+++ b/xo/serialization/char_stream.h
@@ -64,6 +64,9 @@ namespace xo
 
 		size_t line_number() const;
 
+		/// true if (part of) the last token was quoted
+		bool token_quoted() const { return token_quoted_; }
+
 	private:
 		void initialize( const char* b, size_t len );
 		const string* check_operator( const char* s );
@@ -72,6 +75,7 @@ namespace xo
 		void process_end_pos() { if ( cur_pos == cur_pos_end ) buffer_flags.set< fail_flag >(); else cur_pos = cur_pos_end; }
 
 		int radix = 10;
+		bool token_quoted_ = false;
 		string str_buffer;
 		const char* buffer;
 		const char* cur_pos;
-- 
2.43.0


From 97e35f1e55006f8a4852f25863f034067e93c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 09/83] fix: char_stream try_get no longer moves past the end
 of the buffer

---
 xo/serialization/char_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index 29f2f6f..090305a 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -174,7 +174,7 @@ namespace xo
 
 	bool char_stream::try_get( char c )
 	{
-		if ( *cur_pos == c )
+		if ( cur_pos != buffer_end && *cur_pos == c )
 		{
 			++cur_pos;
 			return true;
-- 
2.43.0


From 407389e596d7b6ec873bbae11f2071992ad0d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 10/83] fix: nested ZML macros no longer invalidate the macro
 that is being read

---
 xo/serialization/prop_node_serializer_zml.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index c3bc481..4879d5e 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -68,6 +68,8 @@ namespace xo
 			else
 			{
 				prop_node* next_parent = nullptr;
+				prop_node macro_value; // macros are added after reading their value
+				string macro_name;
 
 				// check if we're reading an array or if this is a label
 				if ( close != "]" )
@@ -76,7 +78,7 @@ namespace xo
 					{
 						// t is a label
 						if ( t[0] == '$' )
-							next_parent = &macros.add_child( t ); // add macro
+							macro_name = t, next_parent = &macro_value; // new macro
 						else if ( !isgraph( t[0] ) )
 							return zml_error( str, ec, "Invalid label " + t );
 						else
@@ -141,6 +143,9 @@ namespace xo
 					// assign value
 					next_parent->set_value( std::move( t ) );
 				}
+
+				if ( !macro_name.empty() )
+					macros.add_child( macro_name, std::move( macro_value ) ); // add macro
 			}
 		}
 
-- 
2.43.0


From 108ad162412202faff05cbd4e55364d3aabcc3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 11/83] fix: quoted ZML text is never an operator, comment or
 end of stream

---
 xo/serialization/prop_node_serializer_zml.cpp | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 4879d5e..0ed6ad4 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -30,6 +30,8 @@ namespace xo
 		while ( true )
 		{
 			string t = str.get_token();
+			if ( str.token_quoted() )
+				return t; // quoted text is never a comment
 			if ( t == "#" || t == "//" ) {
 				// single line comment
 				str.get_line(); 
@@ -48,16 +50,19 @@ namespace xo
 		// keep track of the number of macros so we can delete them at the end of this scope
 		auto macro_count = macros.size();
 
+		// check for unquoted operators
+		auto is_op = [&]( const string& t, const char* op ) { return !str.token_quoted() && t == op; };
+
 		// iterate over all items in this scope
-		for ( string t = get_zml_token( str, ec ); t != close; t = get_zml_token( str, ec ) )
+		for ( string t = get_zml_token( str, ec ); !is_op( t, close.c_str() ); t = get_zml_token( str, ec ) )
 		{
-			if ( t.empty() ) // check if the stream has ended while expecting a close tag
+			if ( is_op( t, "" ) ) // check if the stream has ended while expecting a close tag
 				return zml_error( str, ec, "Unexpected end of stream" );
 
-			if ( t == "<<" ) // check directive statement
+			if ( is_op( t, "<<" ) ) // check directive statement
 			{
 				auto filename = path( get_zml_token( str, ec ) );
-				if ( get_zml_token( str, ec ) != ">>" )
+				if ( !is_op( get_zml_token( str, ec ), ">>" ) )
 					zml_error( str, ec, "'<<' has no find matching '>>'" );
 				if ( filename.is_relative() )
 					filename = folder / filename;
@@ -74,7 +79,7 @@ namespace xo
 				// check if we're reading an array or if this is a label
 				if ( close != "]" )
 				{
-					if ( t != "{" && t != "[" )
+					if ( !is_op( t, "{" ) && !is_op( t, "[" ) )
 					{
 						// t is a label
 						if ( t[0] == '$' )
@@ -86,9 +91,9 @@ namespace xo
 
 						// read = or :
 						t = get_zml_token( str, ec );
-						if ( t == "=" || t == ": " )
+						if ( is_op( t, "=" ) || is_op( t, ": " ) )
 							t = get_zml_token( str, ec );
-						else if ( t != "{" && t != "[" )
+						else if ( !is_op( t, "{" ) && !is_op( t, "[" ) )
 							return zml_error( str, ec, "Expected '=', ':', '{' or '['" );
 					}
 					else
@@ -102,9 +107,9 @@ namespace xo
 				else next_parent = &parent.add_child( "" ); // add array child
 
 				// parse value element after
-				if ( t == "{" ) // new group
+				if ( is_op( t, "{" ) ) // new group
 					read_zml_layer( str, *next_parent, "}", ec, folder, included_files, root, macros );
-				else if ( t == "[" ) // new array
+				else if ( is_op( t, "[" ) ) // new array
 					read_zml_layer( str, *next_parent, "]", ec, folder, included_files, root, macros );
 				else if ( str_begins_with( t, '@' ) )
 				{
-- 
2.43.0


From 534f19b4bbbc2489e5d81d4c2d7152066f6a4dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 12/83] fix: ZML writer quotes text with quotes, equal signs
 and colons

---
 xo/serialization/prop_node_serializer_zml.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 0ed6ad4..d1f7b01 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -176,17 +176,20 @@ namespace xo
 		return parse_zml( stream, ec, path() );
 	}
 
+	// characters that have a special meaning in ZML
+	static const char* zml_special_chars = "{}[]#<>\\/'=:";
+
 	void write_zml_kvp( std::ostream& str, const string& label, const prop_node& pn, const char* equals_str, bool inside_array )
 	{
 		bool show_label = !label.empty();
 		bool show_value = !pn.get_str().empty() || pn.size() == 0;
 		xo_error_if( !show_label && show_value && !inside_array, "Value without label outside array" );
 		if ( show_label )
-			str << try_quoted( label, "{}[]#<>\\/" );
+			str << try_quoted( label, zml_special_chars );
 		if ( show_label && show_value )
 			str << equals_str;
 		if ( show_value )
-			str << try_quoted( pn.get_str(), "{}[]#<>\\/" );
+			str << try_quoted( pn.get_str(), zml_special_chars );
 	}
 
 	void write_zml_node_one_line( std::ostream& str, const string& label, const prop_node& pn, bool inside_array )
-- 
2.43.0


From 57fa7e5167f78dbc59e3952742e9997917ebbf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 13/83] fix: no zero character is added to an unterminated
 quoted token

---
 xo/serialization/char_stream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index 090305a..fab1942 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -83,6 +83,8 @@ namespace xo
 				while ( good() )
 				{
 					char c = peekc();
+					if ( eof() ) // no end of quote
+						break;
 					if ( c == quote_char ) // end of quote
 					{
 						getc();
-- 
2.43.0


From 55613d5a65036d2e78a21b829317be8020651c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:27 +0000
Subject: [PATCH 14/83] fix: ini files start with the items that are not part
 of a group

---
 xo/serialization/prop_node_serializer_ini.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_ini.cpp b/xo/serialization/prop_node_serializer_ini.cpp
index 88eecbe..15b35ab 100644
--- a/xo/serialization/prop_node_serializer_ini.cpp
+++ b/xo/serialization/prop_node_serializer_ini.cpp
@@ -10,6 +10,11 @@ namespace xo
 	std::ostream& prop_node_serializer_ini::write_stream( std::ostream& str ) const
 	{
 		xo_assert( write_pn_ );
+		// main items come first, otherwise they become part of the preceding group
+		for ( auto& e : *write_pn_ )
+			if ( e.second.size() == 0 && e.second.has_value() ) // main item
+				str << e.first << "=" << e.second.get_str() << std::endl;
+
 		for ( auto& e : *write_pn_ )
 		{
 			if ( e.second.size() > 0 ) // group item
@@ -18,8 +23,6 @@ namespace xo
 				for ( auto& e2 : e.second )
 					str << e2.first << "=" << e2.second.get_str() << std::endl;
 			}
-			else if ( e.second.has_value() ) // main item
-				str << e.first << "=" << e.second.get_str() << std::endl;
 		}
 		return str;
 	}
-- 
2.43.0


From e4f7619747703ebb3a7ddd8bafafe95f6817dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:51 +0000
Subject: [PATCH 15/83] fix: converting a flat_map to a prop_node lost its
 values, only non-const maps were converted

---
 xo/container/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/flat_map.h b/xo/container/flat_map.h
index 7c8a95e..26dc0bf 100644
--- a/xo/container/flat_map.h
+++ b/xo/container/flat_map.h
@@ -144,7 +144,7 @@ namespace xo
 	}
 
 	template< typename K, typename V >
-	prop_node to_prop_node( flat_map<K, V>& m ) {
+	prop_node to_prop_node( const flat_map<K, V>& m ) {
 		prop_node pn;
 		for ( const auto& [key, value] : m )
 			pn[key] = value;
-- 
2.43.0


From 7a90342a81be12c1074ed594a951b4e525fc55cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:08 +0000
Subject: [PATCH 16/83] fix: flat_map and flat_set from a list have no
 duplicates

---
 xo/container/flat_map.h | 5 +----
 xo/container/flat_set.h | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/xo/container/flat_map.h b/xo/container/flat_map.h
index 26dc0bf..adca4f0 100644
--- a/xo/container/flat_map.h
+++ b/xo/container/flat_map.h
@@ -26,7 +26,7 @@ namespace xo
 		~flat_map() = default;
 		flat_map( const flat_map& ) = default;
 		flat_map( flat_map&& other ) = default;
-		flat_map( std::initializer_list< value_type > l ) : data_( l ) { sort(); }
+		flat_map( std::initializer_list< value_type > l ) { reserve( l.size() ); for ( const auto& e : l ) insert( e ); }
 		flat_map& operator=( const flat_map& other ) = default;
 		flat_map& operator=( flat_map&& other ) = default;
 
@@ -128,9 +128,6 @@ namespace xo
 
 	private:
 		container_t data_;
-		void sort() {
-			std::sort( data_.begin(), data_.end(), [&]( const value_type& a, const value_type& b ) { return a.first < b.first; } );
-		}
 	};
 
 	/// convert flat_map to string
diff --git a/xo/container/flat_set.h b/xo/container/flat_set.h
index 370019b..ec811b4 100644
--- a/xo/container/flat_set.h
+++ b/xo/container/flat_set.h
@@ -23,7 +23,7 @@ namespace xo
 		~flat_set() = default;
 		flat_set( const flat_set& other ) = default;
 		flat_set( flat_set&& other ) = default;
-		flat_set( std::initializer_list< key_type > l ) : data_( l ) { sort(); }
+		flat_set( std::initializer_list< key_type > l ) { reserve( l.size() ); for ( const auto& e : l ) insert( e ); }
 		flat_set& operator=( const flat_set& other ) = default;
 		flat_set& operator=( flat_set&& other ) = default;
 
@@ -104,9 +104,6 @@ namespace xo
 
 	private:
 		container_t data_;
-		void sort() {
-			std::sort( data_.begin(), data_.end(), [&]( const key_type& a, const key_type& b ) { return a < b; } );
-		}
 	};
 
 	/// convert flat_set to string
-- 
2.43.0


From 06ccddd491b3f7b6e0aa2d63a0ae4038f47ee2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:08 +0000
Subject: [PATCH 17/83] fix: label_vector finds labels given at construction,
 and no longer finds labels that were replaced

---
 xo/container/label_vector.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xo/container/label_vector.h b/xo/container/label_vector.h
index 118dbbd..e557fcf 100644
--- a/xo/container/label_vector.h
+++ b/xo/container/label_vector.h
@@ -11,8 +11,8 @@ namespace xo
 	struct label_vector
 	{
 		label_vector( size_t channels = 0 ) : labels_( channels ) {}
-		label_vector( std::initializer_list< L > labels ) : labels_( labels ) {}
-		label_vector( const std::vector< L >& labels ) : labels_( labels ) {}
+		label_vector( std::initializer_list< L > labels ) { for ( const auto& l : labels ) add( l ); }
+		label_vector( const std::vector< L >& labels ) { for ( const auto& l : labels ) add( l ); }
 		~label_vector() {}
 
 		index_t add( const L& label ) {
@@ -32,7 +32,7 @@ namespace xo
 			return it->second;
 		}
 
-		index_t find_or_add( const L& label ) const {
+		index_t find_or_add( const L& label ) {
 			auto it = label_indices_.find( label );
 			if ( it == label_indices_.end() ) {
 				labels_.push_back( label );
@@ -51,6 +51,8 @@ namespace xo
 
 		index_t set( index_t idx, const L& label ) {
 			xo_assert( idx < size() && find( label ) == no_index );
+			if ( auto it = label_indices_.find( labels_[idx] ); it != label_indices_.end() && it->second == idx )
+				label_indices_.erase( it ); // forget the label that is replaced
 			labels_[idx] = label;
 			label_indices_[label] = idx;
 			return idx;
-- 
2.43.0


From 256b3dda1e9a9200030ebdea6fb8c0e7b53b14f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:08 +0000
Subject: [PATCH 18/83] fix: circular_deque keeps its elements in order when a
 wrapped buffer grows, and const back() gives the last element

---
 xo/container/circular_deque.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xo/container/circular_deque.h b/xo/container/circular_deque.h
index ea89fb9..acf539a 100644
--- a/xo/container/circular_deque.h
+++ b/xo/container/circular_deque.h
@@ -2,6 +2,7 @@
 
 #include "xo/xo_types.h"
 #include "xo/system/assert.h"
+#include <algorithm>
 #include <vector>
 
 namespace xo
@@ -17,7 +18,11 @@ namespace xo
 		~circular_deque() {}
 
 		void push_back( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + ( front_ + size_ - 1 ), value );
+			if ( ++size_ > capacity() ) {
+				// in a wrapped buffer, the end is just before the front
+				if ( front_ == 0 ) buffer_.push_back( value );
+				else { buffer_.insert( buffer_.begin() + front_, value ); ++front_; }
+			}
 			else back() = value;
 		}
 		void push_front( const T& value ) {
@@ -32,7 +37,7 @@ namespace xo
 		void pop_front() { xo_assert( size_ > 0 ); front_ = ( front_ + 1 ) % capacity(); --size_; }
 
 		T& back() { xo_assert( size_ > 0 ); return buffer_[( front_ + size_ - 1 ) % capacity()]; }
-		const T& back() const { xo_assert( size_ > 0 ); return buffer_[( front_ + size_ ) % capacity()]; }
+		const T& back() const { xo_assert( size_ > 0 ); return buffer_[( front_ + size_ - 1 ) % capacity()]; }
 
 		T& front() { xo_assert( size_ > 0 ); return buffer_[front_]; }
 		const T& front() const { xo_assert( size_ > 0 ); return buffer_[front_]; }
@@ -43,7 +48,13 @@ namespace xo
 		bool full() const { return size() == capacity(); }
 		void clear() { front_ = size_ = 0; }
 
-		void reserve( size_t s ) { buffer_.resize( s ); }
+		void reserve( size_t s ) {
+			if ( s > capacity() ) {
+				std::rotate( buffer_.begin(), buffer_.begin() + front_, buffer_.end() );
+				front_ = 0;
+				buffer_.resize( s );
+			}
+		}
 		size_t capacity() const { return buffer_.size(); }
 
 		template< typename IT > struct iterator_impl
@@ -55,7 +66,7 @@ namespace xo
 			using reference = IT&;
 			iterator_impl( size_t index, const buffer_type& buffer ) : index_( index ), buffer_( buffer ) {}
 			iterator_impl< IT >& operator++() { ++index_; return *this; }
-			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
+			iterator_impl< IT > operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
 			auto operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
-- 
2.43.0


From fa25ed0ade061c00f3a750e1a048759757cb961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:08 +0000
Subject: [PATCH 19/83] fix: dynarray is empty after it was moved, and can be
 assigned to itself

---
 xo/container/dynarray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/container/dynarray.h b/xo/container/dynarray.h
index f20249e..da08d91 100644
--- a/xo/container/dynarray.h
+++ b/xo/container/dynarray.h
@@ -18,9 +18,9 @@ namespace xo
 		dynarray() : data_( nullptr ), end_( nullptr ) {}
 		dynarray( size_t n, const T& v = T() ) : data_( new T[n] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[o.size()] ), end_( data_.get() + o.size() ) { xo::copy( o.begin(), o.end(), begin() ); }
-		dynarray( dynarray&& o ) noexcept : data_( std::move( o.data_ ) ), end_( o.end_ ) {}
-		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[o.size()] ); end_ = data_.get() + o.size(); xo::copy( o.begin(), o.end(), begin() ); return *this; }
-		dynarray<T>& operator=( dynarray&& o ) noexcept { data_ = std::move( o.data_ ); end_ = o.end_; return *this; }
+		dynarray( dynarray&& o ) noexcept : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = nullptr; }
+		dynarray<T>& operator=( const dynarray& o ) { return *this = dynarray( o ); }
+		dynarray<T>& operator=( dynarray&& o ) noexcept { std::swap( data_, o.data_ ); std::swap( end_, o.end_ ); return *this; }
 		~dynarray() {}
 
 		T& operator[]( size_t i ) { return data_[i]; }
-- 
2.43.0


From ea944684ff924f506aa15ccd533176f6b572a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:08 +0000
Subject: [PATCH 20/83] fix: table: const access by labels returns its value,
 and adding rows and columns at once stays in bounds

---
 xo/container/table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/container/table.h b/xo/container/table.h
index 0c00ff9..5f2a7b1 100644
--- a/xo/container/table.h
+++ b/xo/container/table.h
@@ -48,7 +48,7 @@ namespace xo
 			xo_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-			data.resize( row_size() * cols );
+			data.resize( rows * cols );
 			for ( index_t ri = rows; ri-- > 0; )
 				for ( index_t ci = cols; ci-- > 0; )
 					data[cols * ri + ci] = ( ri < row_size() && ci < column_size() ) ? data[column_size() * ri + ci] : default_value;
@@ -63,7 +63,7 @@ namespace xo
 		const T& operator()( index_t row, index_t col ) const { xo_assert( row < row_size() && col < column_size() ); return data[row * column_size() + col]; }
 		T& operator()( index_t row, index_t col ) { xo_assert( row < row_size() && col < column_size() ); return data[row * column_size() + col]; }
 
-		const T& operator()( const L& row, const L& col ) const { operator()( find_row( row ), find_column( col ) ); }
+		const T& operator()( const L& row, const L& col ) const { return operator()( find_row( row ), find_column( col ) ); }
 		T& operator()( const L& row, const L& col ) { return operator()( get_or_add_row( row ), get_or_add_column( col ) ); }
 
 		const T& operator()( index_t row, const L& col ) const { return operator()( row, find_column( col ) ); }
-- 
2.43.0


From 53f6b6b65113e649f42e72ffdd562967a98eec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:08 +0000
Subject: [PATCH 21/83] fix: collection_ic::erase returns the index

---
 xo/container/collection_ic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/collection_ic.h b/xo/container/collection_ic.h
index e21f6ba..b52e0d1 100644
--- a/xo/container/collection_ic.h
+++ b/xo/container/collection_ic.h
@@ -23,7 +23,7 @@ namespace xo
 		template< typename T > const T& operator[]( index_class<T, I> i ) const { return get_vec<T>()[i.idx]; }
 		template< typename T > T& operator[]( index_class<T, I> i ) { return get_vec<T>()[i.idx]; }
 
-		template< typename T > index_class<T, I> erase( index_class<T, I> i ) { auto& v = get_vec<T>(); v.erase( i.iter( v ) ); }
+		template< typename T > index_class<T, I> erase( index_class<T, I> i ) { auto& v = get_vec<T>(); v.erase( i.iter( v ) ); return i; }
 		template< typename T > void pop_back() { get_vec<T>().pop_back(); }
 
 		template< typename T > const std::vector<T>& get_vec() const { return std::get< std::vector<T> >( data_ ); }
-- 
2.43.0


From cf146e7814d5ee145e0e750129ff76eb7d13e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:08 +0000
Subject: [PATCH 22/83] fix: find_frame_index also considers the first frame as
 closest frame

---
 xo/container/storage_tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/storage_tools.h b/xo/container/storage_tools.h
index 5b483fc..b2803aa 100644
--- a/xo/container/storage_tools.h
+++ b/xo/container/storage_tools.h
@@ -43,7 +43,7 @@ namespace xo
 		first = xo::min( first, sto.frame_size() - 1 );
 
 		// check if value is closer to lower_bound frame or to prev
-		if ( first > 1 && ( val - sto( first - 1, ch ) < sto( first, ch ) - val ) )
+		if ( first > 0 && ( val - sto( first - 1, ch ) < sto( first, ch ) - val ) )
 			return first - 1;
 		else return first;
 	}
-- 
2.43.0


From 82f8c005c47469d38a8f651f418078f614f08b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:08 +0000
Subject: [PATCH 23/83] fix: indexed_set is not changed when it is full

---
 xo/container/indexed_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/container/indexed_set.h b/xo/container/indexed_set.h
index 61ea1cd..e686fbc 100644
--- a/xo/container/indexed_set.h
+++ b/xo/container/indexed_set.h
@@ -26,10 +26,10 @@ namespace xo
 		I get_or_add( const T& value ) {
 			auto it = indices_.find( value );
 			if ( it == indices_.end() ) { // add new
-				values_.push_back( value );
-				auto index = values_.size() - 1;
+				auto index = values_.size();
 				// check if the index is valid (must be SMALLER than max to avoid sentinel)
 				xo_error_if( index >= size_t( constants<I>::max() ), "index_set overflow" );
+				values_.push_back( value );
 				return indices_[value] = static_cast<I>( index );
 			}
 			else return it->second; // get existing
-- 
2.43.0


From dfb0d6e91aefd7a93964fadbe562598eeeb60355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:01 +0000
Subject: [PATCH 24/83] fix: copy_container and median_slow compile

---
 xo/container/container_algorithms.h | 2 +-
 xo/container/container_tools.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/container/container_algorithms.h b/xo/container/container_algorithms.h
index 9e2389c..448f35c 100644
--- a/xo/container/container_algorithms.h
+++ b/xo/container/container_algorithms.h
@@ -119,7 +119,7 @@ namespace xo
 		std::vector< typename std::remove_cv< typename std::iterator_traits< It >::value_type >::type > v( n / 2 + 1 );
 		std::partial_sort_copy( b, e, v.begin(), v.end() );
 		if ( n % 2 == 1 ) return v[n / 2];
-		else return ( v[n / 2] + v[n / 2 - 1] ) / std::iterator_traits< It >::value_type( 2 );
+		else return ( v[n / 2] + v[n / 2 - 1] ) / typename std::iterator_traits< It >::value_type( 2 );
 	}
 
 	template< typename It > auto median_non_const( It b, It e ) {
diff --git a/xo/container/container_tools.h b/xo/container/container_tools.h
index 7940b8e..0ebbca1 100644
--- a/xo/container/container_tools.h
+++ b/xo/container/container_tools.h
@@ -119,7 +119,7 @@ namespace xo
 	/// copy elements of one container to another (with range checking)
 	template< typename InC, typename OutC > void copy_container( const InC& source, OutC& target ) {
 		xo_assert( std::size( source ) <= std::size( target ) );
-		copy( std::begin( source ), std::end( source ), std::begin( target ) );
+		xo::copy( std::begin( source ), std::end( source ), std::begin( target ) );
 	}
 
 	/// copy elements of one container to another, explicitly casting to target value type (with range checking)
-- 
2.43.0


From 57b73ffd961e94689efdfa95803364a2218526ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:01 +0000
Subject: [PATCH 25/83] fix: top_average averages all elements if there are
 fewer than requested

---
 xo/container/container_algorithms.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/container_algorithms.h b/xo/container/container_algorithms.h
index 448f35c..698b63b 100644
--- a/xo/container/container_algorithms.h
+++ b/xo/container/container_algorithms.h
@@ -146,7 +146,7 @@ namespace xo
 
 	template< typename C > typename C::value_type top_average( const C& vec, size_t count ) {
 		// #todo: use nth_element for better performance
-		C result( count );
+		C result( std::min( count, vec.size() ) );
 		std::partial_sort_copy( vec.begin(), vec.end(), result.begin(), result.end() );
 		return average( result );
 	}
-- 
2.43.0


From 38eb702ad587bb5b753d454ac536dde112c86916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:15 +0000
Subject: [PATCH 26/83] fix: flag_set::clear( flags ) compiles

---
 xo/container/flag_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/flag_set.h b/xo/container/flag_set.h
index 674e80c..1a005d8 100644
--- a/xo/container/flag_set.h
+++ b/xo/container/flag_set.h
@@ -60,7 +60,7 @@ namespace xo
 			return *this;
 		}
 		flag_set& clear( std::initializer_list<EnumT> flags ) {
-			for ( auto f : flags ) clear( f );
+			for ( auto f : flags ) set( f, false );
 			return *this;
 		}
 		flag_set& set( std::initializer_list<EnumT> flags, bool value ) {
-- 
2.43.0


From 60c894b25a94ff7175c09bc411d69f24a27d2f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:15 +0000
Subject: [PATCH 27/83] fix: irange_step ends when the step does not hit the
 end of the range

---
 xo/utility/irange.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/utility/irange.h b/xo/utility/irange.h
index abfbc35..00fa951 100644
--- a/xo/utility/irange.h
+++ b/xo/utility/irange.h
@@ -67,8 +67,8 @@ namespace xo
 			T operator++() { return value_ += step_; }
 			T operator++( int ) { value_ += step_; return value_ - step_; }
 
-			bool operator==( const iterator& other ) { return other.value_ == value_; }
-			bool operator!=( const iterator& other ) { return other.value_ != value_; }
+			bool operator==( const iterator& other ) { return !( *this != other ); }
+			bool operator!=( const iterator& other ) { return step_ > T( 0 ) ? value_ < other.value_ : value_ > other.value_; }
 			T operator*() { return value_; }
 
 			T value_, step_;
-- 
2.43.0


From 5e1ecc5f8e420442982a3fc89f4629da1d1a20db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 28/83] fix: frange size counts the last value, and a range of
 a single value is not NaN

---
 xo/utility/frange.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/utility/frange.h b/xo/utility/frange.h
index daa297e..f79c6a5 100644
--- a/xo/utility/frange.h
+++ b/xo/utility/frange.h
@@ -28,15 +28,15 @@ namespace xo
 			iterator( T step, T b, T e, T steps ) : step_( step ), min_( b ), max_( e ), max_step_( steps ) {}
 			T step_, min_, max_, max_step_;
 			T operator++() { return step_ += T( 1 ); }
-			T operator++( int ) { step_ += T( 1 ); return max_step_ - T( 1 ); }
+			T operator++( int ) { step_ += T( 1 ); return step_ - T( 1 ); }
 			bool operator==( const iterator& other ) { return other.step_ == step_; }
 			bool operator!=( const iterator& other ) { return other.step_ != step_; }
-			T operator*() const { return min_ + step_ * ( max_ - min_ ) / max_step_; }
+			T operator*() const { return max_step_ > T( 0 ) ? min_ + step_ * ( max_ - min_ ) / max_step_ : min_; }
 		};
 
 		iterator begin() const { return iterator( T( 0 ), min_, max_, max_step_ ); }
 		iterator end() const { return iterator( max_step_ + 1, min_, max_, max_step_ ); }
-		size_t size() const { return size_t( max_step_ ); }
+		size_t size() const { return size_t( max_step_ + T( 1 ) ); }
 
 		T min_, max_, max_step_;
 	};
-- 
2.43.0


From b451c83e8550328b4681c32ccf2fc2f2e6771708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 29/83] fix: comparing two optionals for inequality called
 itself forever

---
 xo/utility/optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/optional.h b/xo/utility/optional.h
index c51c2b5..76d52b5 100644
--- a/xo/utility/optional.h
+++ b/xo/utility/optional.h
@@ -74,5 +74,5 @@ namespace xo
 	template< typename T > bool operator==( const T& lhs, const optional<T>& rhs ) { return rhs == lhs; }
 	template< typename T > bool operator!=( const T& lhs, const optional<T>& rhs ) { return rhs != lhs; }
 	template< typename T > bool operator==( const optional<T>& lhs, const optional<T>& rhs ) { return ( lhs && rhs && *rhs == *lhs ) || ( !lhs && !rhs ); }
-	template< typename T > bool operator!=( const optional<T>& lhs, const optional<T>& rhs ) { return rhs != lhs; }
+	template< typename T > bool operator!=( const optional<T>& lhs, const optional<T>& rhs ) { return !( lhs == rhs ); }
 }
-- 
2.43.0


From 6640631f98d5b891a00bdfc37e85ecb450fa1d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 30/83] fix: smart enums can be read from the end of a stream

---
 xo/utility/smart_enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/smart_enum.h b/xo/utility/smart_enum.h
index de4b92b..73f8ef2 100644
--- a/xo/utility/smart_enum.h
+++ b/xo/utility/smart_enum.h
@@ -31,7 +31,7 @@ namespace smart_enum_detail
 inline std::string to_str( E e ) { return ::smart_enum_detail::to_str( int( e ), VA_STR ); } \
 inline bool from_str( const std::string& str, E& e ) { return ::smart_enum_detail::from_str( str, e, VA_STR ); } \
 inline std::ostream& operator<<( std::ostream& ostr, E e ) { return ostr << to_str( e ); } \
-inline std::istream& operator>>( std::istream& istr, E& e ) { std::string s; istr >> s; if ( istr.good() && !from_str( s, e ) ) istr.setstate( std::ios::failbit ); return istr; }
+inline std::istream& operator>>( std::istream& istr, E& e ) { std::string s; istr >> s; if ( !istr.fail() && !from_str( s, e ) ) istr.setstate( std::ios::failbit ); return istr; }
 
 #define xo_smart_enum( E, ... ) \
 enum E { __VA_ARGS__ }; \
-- 
2.43.0


From 1612e74f644fdfbe220ea7a83e361634b04c1165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 31/83] fix: color made from doubles uses the given alpha

---
 xo/utility/color.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/color.h b/xo/utility/color.h
index 8948ec8..e9f0c67 100644
--- a/xo/utility/color.h
+++ b/xo/utility/color.h
@@ -9,7 +9,7 @@ namespace xo
 	{
 		color() : r( 0.0f ), g( 0.0f ), b( 0.0f ), a( 1.0f ) {}
 		color( float pr, float pg, float pb, float pa = 1.0f ) : r( pr ), g( pg ), b( pb ), a( pa ) {}
-		color( double pr, double pg, double pb, double pa = 1.0 ) : r( float( pr ) ), g( float( pg ) ), b( float( pb ) ), a( float( pb ) ) {}
+		color( double pr, double pg, double pb, double pa = 1.0 ) : r( float( pr ) ), g( float( pg ) ), b( float( pb ) ), a( float( pa ) ) {}
 
 		float r, g, b, a;
 
-- 
2.43.0


From 3a727cdf13b05afe6e521a314465db5415ef7fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 32/83] fix: memoize.h includes what it uses

---
 xo/utility/memoize.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xo/utility/memoize.h b/xo/utility/memoize.h
index 49ba533..63a0346 100644
--- a/xo/utility/memoize.h
+++ b/xo/utility/memoize.h
@@ -1,9 +1,12 @@
 #pragma once
 
 #include <functional>
+#include <map>
 #include <mutex>
 #include <shared_mutex>
+#include <tuple>
 #include "type_traits.h"
+#include "xo/system/assert.h"
 
 namespace xo
 {
-- 
2.43.0


From 1a0014ef0aa7bed762a8814fe30d6e2460025e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 33/83] fix: a file that could not be reloaded is tried again,
 rather than given from the cache

---
 xo/utility/file_resource_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/file_resource_cache.h b/xo/utility/file_resource_cache.h
index 335d301..66fa888 100644
--- a/xo/utility/file_resource_cache.h
+++ b/xo/utility/file_resource_cache.h
@@ -43,8 +43,8 @@ namespace xo
 						if ( file_time != item->file_time_ )
 						{
 							// file was modified, reload
-							item->file_time_ = file_time;
 							item->data_.reset( create_( p ) );
+							item->file_time_ = file_time;
 						}
 					}
 					catch ( std::exception& e ) {
-- 
2.43.0


From 2d85ad7e998a4b46264cc7dc5639a8e0bf3aa293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 34/83] fix: bounds::soft_clamped takes the boundary it needs,
 so that it compiles

---
 xo/numerical/bounds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/bounds.h b/xo/numerical/bounds.h
index 8313908..e0fde37 100644
--- a/xo/numerical/bounds.h
+++ b/xo/numerical/bounds.h
@@ -39,7 +39,7 @@ namespace xo
 		T& clamp( T& value ) const { return xo::clamp( value, lower, upper ); }
 		T clamped( T value ) const { return xo::clamped( value, lower, upper ); }
 		T& soft_clamp( T& value, const T& boundary ) const { return xo::soft_clamp( value, lower, upper, boundary ); }
-		T soft_clamped( T value ) const { return xo::soft_clamped( value, lower, upper ); }
+		T soft_clamped( T value, const T& boundary ) const { return xo::soft_clamped( value, lower, upper, boundary ); }
 
 		// return inverted bounds
 		bounds< T > operator-() const { return bounds( -upper, -lower ); }
-- 
2.43.0


From 01aeb24f53a8e2ad261237b628bb7c3790969216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 35/83] fix: assignment to a bounded value returns that value

---
 xo/numerical/bounded.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/numerical/bounded.h b/xo/numerical/bounded.h
index 062812a..b431e82 100644
--- a/xo/numerical/bounded.h
+++ b/xo/numerical/bounded.h
@@ -9,9 +9,9 @@ namespace xo
 	{
 		bounded() {}
 		bounded( T value ) { set( value ); }
-		bounded< T, L, U >& operator=( T value ) { set( value ); }
-		bounded< T, L, U >& operator=( bounded< T, L, U >& value ) { set( value ); }
-		bounded< T, L, U >& set( T value ) { if ( value < L || value > U ) xo_error( "Value out of bounds" ); else value_ = value; }
+		bounded< T, L, U >& operator=( T value ) { return set( value ); }
+		bounded< T, L, U >& operator=( const bounded< T, L, U >& value ) { return set( value.value_ ); }
+		bounded< T, L, U >& set( T value ) { if ( value < L || value > U ) xo_error( "Value out of bounds" ); else value_ = value; return *this; }
 
 		operator const T& ( ) const { return value_; }
 		operator T& ( ) { return value_; }
-- 
2.43.0


From eefe49e212f3318d63509e05053d485129da7d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 36/83] fix: count_digits uses the base for every digit

---
 xo/numerical/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/math.h b/xo/numerical/math.h
index 374ef33..2772cce 100644
--- a/xo/numerical/math.h
+++ b/xo/numerical/math.h
@@ -72,7 +72,7 @@ namespace xo
 
 	/// count the digits if a positive integer, given a base
 	inline size_t count_digits( size_t value, size_t base = 10 )
-	{ size_t digits = 1; for ( ; value >= base; ++digits ) value /= 10; return digits; }
+	{ size_t digits = 1; for ( ; value >= base; ++digits ) value /= base; return digits; }
 
 	/// round and cast to integer type
 	template< typename TI, typename TF >
-- 
2.43.0


From 8f86b8002e769a520c28157bbe453557a0deeb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 37/83] fix: pos_mod of a negative multiple is zero

---
 xo/numerical/math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/numerical/math.h b/xo/numerical/math.h
index 2772cce..3c2b82c 100644
--- a/xo/numerical/math.h
+++ b/xo/numerical/math.h
@@ -149,7 +149,8 @@ namespace xo
 
 	/// positive modulo
 	template< typename T > T pos_mod( T x, T y ) {
-		return fmod( x, y ) + T( x < 0 ) * y;
+		auto r = fmod( x, y );
+		return T( r < 0 ? r + y : r );
 	}
 
 	/// triangle wave between l and u, period = 2(u-l).
-- 
2.43.0


From 6ca517f89cd7c345e4d871d6f613cc5364d2254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 38/83] fix: lerp_precise gives v1 for t = 0

---
 xo/numerical/interpolation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/interpolation.h b/xo/numerical/interpolation.h
index 67dcf29..fe191cb 100644
--- a/xo/numerical/interpolation.h
+++ b/xo/numerical/interpolation.h
@@ -12,7 +12,7 @@ namespace xo
 
 	/// linearly interpolate between v1 (t=0) and v2 (t=1)
 	template< typename T, typename S > T lerp_precise( const T& v1, const T& v2, const S& t ) {
-		return ( t - T( 1 ) ) * v1 + t * v2;
+		return ( S( 1 ) - t ) * v1 + t * v2;
 	}
 
 	template< typename M >
-- 
2.43.0


From 8360268a1086b670ee19058f9b8bb200709dc054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 39/83] fix: all samples of a delayer have the initial value

---
 xo/numerical/delayer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xo/numerical/delayer.h b/xo/numerical/delayer.h
index 2cfbf53..3221065 100644
--- a/xo/numerical/delayer.h
+++ b/xo/numerical/delayer.h
@@ -13,8 +13,8 @@ namespace xo
 			window_( delay / ( N - 1 ) ),
 			time_( 0 ),
 			idx_( 0 ),
-			data_{ init_value }
-		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); }
+			data_()
+		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); data_.fill( init_value ); }
 
 		void add_sample( const T& value, float delta_time ) {
 			time_ += delta_time;
@@ -47,8 +47,8 @@ namespace xo
 			time_( 0 ),
 			inter_( 0 ),
 			idx_( 0 ),
-			data_{ init_value }
-		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); }
+			data_()
+		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); data_.fill( init_value ); }
 
 		void add_sample( const T& value, float delta_time ) {
 			time_ += delta_time;
-- 
2.43.0


From 194e38ff70c11a30b076822e8760588d3d69c8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 40/83] fix: points of piecewise functions are not references
 to a temporary

---
 xo/numerical/piecewise_constant_function.h | 2 +-
 xo/numerical/piecewise_linear_function.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/numerical/piecewise_constant_function.h b/xo/numerical/piecewise_constant_function.h
index 51b7ece..8fb6e65 100644
--- a/xo/numerical/piecewise_constant_function.h
+++ b/xo/numerical/piecewise_constant_function.h
@@ -27,7 +27,7 @@ namespace xo
 		}
 
 		const container_t& data() { return data_; }
-		const std::pair< double, double >& point( index_t i ) { return *( data_.begin() + i ); }
+		const typename container_t::value_type& point( index_t i ) { return *( data_.begin() + i ); }
 		size_t size() const { return data_.size(); }
 
 	private:
diff --git a/xo/numerical/piecewise_linear_function.h b/xo/numerical/piecewise_linear_function.h
index 775a41d..4223b8e 100644
--- a/xo/numerical/piecewise_linear_function.h
+++ b/xo/numerical/piecewise_linear_function.h
@@ -31,7 +31,7 @@ namespace xo
 		}
 
 		const container_t& data() { return data_; }
-		const std::pair< double, double >& point( index_t i ) { return *( data_.begin() + i ); }
+		const typename container_t::value_type& point( index_t i ) { return *( data_.begin() + i ); }
 		size_t size() const { return data_.size(); }
 
 	private:
-- 
2.43.0


From 98061710c101f78133e6b1982a7807f022339705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:06 +0000
Subject: [PATCH 41/83] fix: bounds::soft_clamp compiles: soft_clamp returns a
 reference, like clamp

---
 xo/numerical/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/math.h b/xo/numerical/math.h
index 3c2b82c..42bf1f6 100644
--- a/xo/numerical/math.h
+++ b/xo/numerical/math.h
@@ -96,7 +96,7 @@ namespace xo
 	template< typename T > T limit_transform( T x, T limit ) { return limit - limit * limit / ( x + limit ); }
 
 	/// clamp with smooth boundary transformation
-	template< typename T > T soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
+	template< typename T > T& soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
 		auto r = boundary * ( max - min );
 		if ( v > max - r ) v = max - r + limit_transform( v - max + r, r );
 		else if ( v < min + r )	v = min + r - limit_transform( min + r - v, r );
-- 
2.43.0


From f3d018227764af20e7afa88c2ee7d139f45029b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 42/83] fix: vec4 operations include the fourth element, and
 vec4.h includes what it uses

---
 xo/geometry/vec4.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xo/geometry/vec4.h b/xo/geometry/vec4.h
index e4ef529..b0d15e1 100644
--- a/xo/geometry/vec4.h
+++ b/xo/geometry/vec4.h
@@ -1,7 +1,7 @@
 #pragma once
 
 #include "vec4_type.h"
-#include "math.h"
+#include "xo/numerical/math.h"
 
 namespace xo
 {
@@ -14,30 +14,30 @@ namespace xo
 
 	/// Subtraction
 	template< typename T > vec4_<T> operator-( const vec4_<T>& v1, const vec4_<T>& v2 )
-	{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z ); }
+	{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z, v1.w - v2.w ); }
 	/// Subtraction
 	template< typename T > vec4_<T>& operator-=( vec4_<T>& v1, const vec4_<T>& v2 )
-	{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; return v1; }
+	{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; v1.w -= v2.w; return v1; }
 
 	/// Negation
 	template< typename T > vec4_<T> operator-( vec4_<T> v )
-	{ v.x = -v.x; v.y = -v.y; v.z = -v.z; return v; }
+	{ v.x = -v.x; v.y = -v.y; v.z = -v.z; v.w = -v.w; return v; }
 
 	/// Scalar multiplication
 	template< typename T > vec4_<T> operator*( T s, vec4_<T> v )
-	{ v.x *= s; v.y *= s; v.z *= s; return v; }
+	{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 	/// Scalar multiplication
 	template< typename T > vec4_<T> operator*( vec4_<T> v, T s )
-	{ v.x *= s; v.y *= s; v.z *= s; return v; }
+	{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 	/// Scalar multiplication
 	template< typename T > vec4_<T>& operator*=( vec4_<T>& v, T s )
-	{ v.x *= s; v.y *= s; v.z *= s; return v; }
+	{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 
 	/// Scalar division
 	template< typename T > vec4_<T> operator/( vec4_<T> v, T s )
-	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 	/// Scalar division
 	template< typename T > vec4_<T>& operator/=( vec4_<T>& v, T s )
-	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 }
 
-- 
2.43.0


From 2adfbe791219f0a4cac86c9bdcb17b185926f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 43/83] fix: scaled( vec3 ) returns a value instead of a
 reference to its argument

---
 xo/geometry/vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/geometry/vec3.h b/xo/geometry/vec3.h
index a40e2c2..34845d8 100644
--- a/xo/geometry/vec3.h
+++ b/xo/geometry/vec3.h
@@ -132,7 +132,7 @@ namespace xo
 	{ v.x *= s.x; v.y *= s.y; v.z *= s.z; return v; }
 
 	/// Scale vector elements
-	template< typename T > vec3_<T>& scaled( vec3_<T> v, const vec3_<T>& s ) { return scale( v, s ); }
+	template< typename T > vec3_<T> scaled( vec3_<T> v, const vec3_<T>& s ) { return scale( v, s ); }
 
 	/// Projection of v1 onto v2
 	template< typename T > vec3_<T> projection( const vec3_<T>& v1, const vec3_<T>& v2 )
-- 
2.43.0


From 90eeee6eafebbd72890a1ff86b8af0a7142e96b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 44/83] fix: inverse of a quaternion that is not normalized

---
 xo/geometry/quat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/geometry/quat.h b/xo/geometry/quat.h
index b53a4b5..c2cecfe 100644
--- a/xo/geometry/quat.h
+++ b/xo/geometry/quat.h
@@ -100,9 +100,9 @@ namespace xo
 	/// get quaternion conjugate
 	template< typename T > quat_<T> operator-( quat_<T> q ) { q.x = -q.x; q.y = -q.y; q.z = -q.z; return q; }
 
-	/// get quaternion inverse; #todo: verify correctness
+	/// get quaternion inverse
 	template< typename T > quat_<T> inverse( quat_<T> q )
-	{ auto f = T( -1 ) / squared_length( q ); q.x *= f; q.y *= f; q.z *= f; return q; }
+	{ auto f = T( 1 ) / squared_length( q ); q.w *= f; q.x *= -f; q.y *= -f; q.z *= -f; return q; }
 
 	/// return quaternion in which w is positive (negate if w < 0)
 	template< typename T > quat_<T> positive( quat_<T> q )
-- 
2.43.0


From 14515db694017c8e81e77a0fb95ad264daf9bf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 45/83] fix: mat33: const element access, so that
 quat_from_mat33 compiles

---
 xo/geometry/mat33.h      | 1 +
 xo/geometry/mat33_type.h | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/xo/geometry/mat33.h b/xo/geometry/mat33.h
index cd0fa7f..2e41a8e 100644
--- a/xo/geometry/mat33.h
+++ b/xo/geometry/mat33.h
@@ -3,6 +3,7 @@
 #include "mat33_type.h"
 #include "vec3_type.h"
 #include "quat_type.h"
+#include <cmath>
 
 namespace xo
 {
diff --git a/xo/geometry/mat33_type.h b/xo/geometry/mat33_type.h
index 820b202..8021e3b 100644
--- a/xo/geometry/mat33_type.h
+++ b/xo/geometry/mat33_type.h
@@ -18,7 +18,9 @@ namespace xo
 
 		T e00, e01, e02, e10, e11, e12, e20, e21, e22;
 		T* operator[]( index_t row ) { return &ptr()[row * 3]; }
+		const T* operator[]( index_t row ) const { return &ptr()[row * 3]; }
 		T* ptr() { return &e00; }
+		const T* ptr() const { return &e00; }
 	};
 
 	using mat33f = mat33_< float >;
-- 
2.43.0


From eaee47b0e785c4c176088a8c1958099daf6a1883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 46/83] fix: dynvec.h includes what it uses

---
 xo/geometry/dynvec.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/geometry/dynvec.h b/xo/geometry/dynvec.h
index 670f0d4..605de6c 100644
--- a/xo/geometry/dynvec.h
+++ b/xo/geometry/dynvec.h
@@ -4,6 +4,8 @@
 #include "xo/utility/pointer_iterator.h"
 #include "xo/container/dynarray.h"
 #include "xo/numerical/constants.h"
+#include "xo/numerical/compare.h"
+#include "xo/numerical/math.h"
 #include <cmath>
 
 namespace xo
-- 
2.43.0


From 880a2b2a12700e43a770fa25ec8e3fa9fe9be4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 47/83] fix: multiplication of a dynmat and a dynvec compiles,
 and uses ( col, row ) indices

---
 xo/geometry/dynmat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/geometry/dynmat.h b/xo/geometry/dynmat.h
index 1057321..9ddad7f 100644
--- a/xo/geometry/dynmat.h
+++ b/xo/geometry/dynmat.h
@@ -50,13 +50,13 @@ namespace xo
 
 	template< typename T > dynvec< T > operator*( const dynmat< T >& m, const dynvec< T >& v )
 	{
-		flut_assert( m.cols() == v.size() );
+		xo_assert( m.cols() == v.size() );
 		dynvec< T > r( m.rows() );
 		for ( index_t row = 0; row < m.rows(); ++row )
 		{
 			T sum = 0.0;
 			for ( index_t col = 0; col < m.cols(); ++col )
-				sum += m( row, col ) * v[col];
+				sum += m( col, row ) * v[col];
 			r[row] = sum;
 		}
 		return r;
-- 
2.43.0


From 5f9fc51567df2b7e6bb9877ecfe0beec587aeaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 48/83] fix: transform_srt.h no longer redefines transformf and
 transformd

---
 xo/geometry/transform_srt.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/geometry/transform_srt.h b/xo/geometry/transform_srt.h
index d806f13..c401e86 100644
--- a/xo/geometry/transform_srt.h
+++ b/xo/geometry/transform_srt.h
@@ -40,8 +40,8 @@ namespace xo
 		static transform_srt_<T> identity() { return transform_srt_<T>( vec3_<T>::zero(), quat_<T>::identity() ); }
 	};
 
-	using transformf = transform_srt_< float >;
-	using transformd = transform_srt_< double >;
+	using transform_srtf = transform_srt_< float >;
+	using transform_srtd = transform_srt_< double >;
 
 	/// convert from prop_node
 	template< typename T > bool from_prop_node( const prop_node& pn, transform_srt_<T>& tf ) {
-- 
2.43.0


From 1dda051a94b85398597857b6ec9c60445374f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 49/83] fix: mirror_tools.h compiles

---
 xo/geometry/mirror_tools.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/geometry/mirror_tools.h b/xo/geometry/mirror_tools.h
index 61d14d2..e7496c9 100644
--- a/xo/geometry/mirror_tools.h
+++ b/xo/geometry/mirror_tools.h
@@ -73,7 +73,8 @@ namespace xo
 		return obj;
 	}
 
-	inline vec3 mirrored_axis_if( vec3 dir, bool m ) {
+	template< typename T >
+	vec3_<T> mirrored_axis_if( vec3_<T> dir, bool m ) {
 		if ( m )
 			mirror_axis( dir );
 		return dir;
-- 
2.43.0


From 32cec0772687c2f6dcb3adc0c77817030b9333be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 50/83] fix: path_alg.h and vec.h include what they use

---
 xo/geometry/path_alg.h | 3 +++
 xo/geometry/vec.h      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/xo/geometry/path_alg.h b/xo/geometry/path_alg.h
index e594e3f..9d872d0 100644
--- a/xo/geometry/path_alg.h
+++ b/xo/geometry/path_alg.h
@@ -1,6 +1,9 @@
 #pragma once
 
 #include "xo/numerical/compare.h"
+#include "xo/system/assert.h"
+#include "xo/xo_types.h"
+#include <iterator>
 
 namespace xo
 {
diff --git a/xo/geometry/vec.h b/xo/geometry/vec.h
index 39a44e5..3d99bd7 100644
--- a/xo/geometry/vec.h
+++ b/xo/geometry/vec.h
@@ -1,5 +1,8 @@
 #pragma once
 
+#include "xo/xo_types.h"
+#include <algorithm>
+
 namespace xo
 {
 	template< size_t S, typename T > struct vec_
-- 
2.43.0


From 5458670341e72a9b13319f79488a2a2d1181b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 51/83] fix: cylinder.h, capsule.h and cone.h include what they
 use

---
 xo/shape/capsule.h  | 5 +++++
 xo/shape/cone.h     | 4 ++++
 xo/shape/cylinder.h | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/xo/shape/capsule.h b/xo/shape/capsule.h
index 894ddc4..ca5de8c 100644
--- a/xo/shape/capsule.h
+++ b/xo/shape/capsule.h
@@ -1,6 +1,11 @@
 #pragma once
 
 #include "xo/system/assert.h"
+#include "xo/numerical/constants.h"
+#include "xo/numerical/math.h"
+#include "xo/geometry/transform.h"
+#include "xo/shape/aabb.h"
+#include "xo/container/pair_type.h"
 #include <cmath>
 
 namespace xo
diff --git a/xo/shape/cone.h b/xo/shape/cone.h
index a70e503..4183484 100644
--- a/xo/shape/cone.h
+++ b/xo/shape/cone.h
@@ -1,6 +1,10 @@
 #pragma once
 
 #include "xo/system/assert.h"
+#include "xo/numerical/constants.h"
+#include "xo/numerical/math.h"
+#include "xo/geometry/transform.h"
+#include "xo/shape/aabb.h"
 #include <cmath>
 
 namespace xo
diff --git a/xo/shape/cylinder.h b/xo/shape/cylinder.h
index fc7203a..2e07c37 100644
--- a/xo/shape/cylinder.h
+++ b/xo/shape/cylinder.h
@@ -1,6 +1,10 @@
 #pragma once
 
 #include "xo/system/assert.h"
+#include "xo/numerical/constants.h"
+#include "xo/numerical/math.h"
+#include "xo/geometry/transform.h"
+#include "xo/shape/aabb.h"
 #include <cmath>
 
 namespace xo
-- 
2.43.0


From cf693cc300e7adbd3c12f1b1d1533587b470c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 52/83] fix: mass is counted once in the inertia of a capsule

---
 xo/shape/capsule.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/shape/capsule.h b/xo/shape/capsule.h
index ca5de8c..7062313 100644
--- a/xo/shape/capsule.h
+++ b/xo/shape/capsule.h
@@ -41,7 +41,7 @@ namespace xo
 
 		float m1 = pi * r2 * h * density;
 		float m2 = ( 4.0f / 3.0f ) * pi * r3 * density;
-		float Ia = m1 * ( 0.25f * r2 + ( 1.0f / 12.0f ) * m1 * h * h ) + m2 * ( 0.4f * r2 + 0.375f * r * h + 0.25f * h * h );
+		float Ia = m1 * ( 0.25f * r2 + ( 1.0f / 12.0f ) * h * h ) + m2 * ( 0.4f * r2 + 0.375f * r * h + 0.25f * h * h );
 		float Ib = ( m1 * 0.5f + m2 * 0.4f ) * r2;
 
 		return vec3f{ Ia, Ib, Ia };
-- 
2.43.0


From f8aba68c1aa15e964ba84536709a01f236995d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 53/83] fix: distance from the center of a cylinder to its top

---
 xo/shape/shape_tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/shape/shape_tools.h b/xo/shape/shape_tools.h
index ce9e09f..7270db7 100644
--- a/xo/shape/shape_tools.h
+++ b/xo/shape/shape_tools.h
@@ -24,7 +24,7 @@ namespace xo
 		const auto r = s.radius_;
 		auto vxz = std::sqrt( dir.x * dir.x + dir.z * dir.z );
 		if ( std::abs( dir.y ) * r > hh * vxz )
-			return std::sqrt( hh * hh + vxz * vxz ); // point is on cylinder top
+			return hh / std::abs( dir.y ); // point is on cylinder top
 		else return r / vxz; // point is on cylinder side
 	}
 	inline float distance_from_center( const xo::capsule& s, const vec3f& dir ) {
-- 
2.43.0


From bf3f076ebf7e2ecf884f82a1b79cb92546d0d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:11 +0000
Subject: [PATCH 54/83] fix: transform_srt: composing and inverting transforms
 includes the scale

---
 xo/geometry/transform_srt.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/xo/geometry/transform_srt.h b/xo/geometry/transform_srt.h
index c401e86..fadf6b2 100644
--- a/xo/geometry/transform_srt.h
+++ b/xo/geometry/transform_srt.h
@@ -17,16 +17,18 @@ namespace xo
 		transform_srt_( vec3_<T> pos ) : p( pos ), q( quat_<T>::identity() ) {}
 		transform_srt_( quat_<T> ori ) : p( vec3_<T>::zero() ), q( ori ) {}
 
+		transform_srt_( vec3_<T> pos, quat_<T> ori, scale3_<T> scl ) : s( scl ), q( ori ), p( pos ) {}
+
 		scale3_<T> s;
 		quat_<T> q;
 		vec3_<T> p;
 
-		/// concatenate transforms
-		transform_srt_<T> operator*( const transform_srt_<T>& t ) const { return transform_srt_<T>( p + q * t.p, q * t.q ); }
-		transform_srt_<T>& operator*=( const transform_srt_<T>& t ) { p += q * t.p; q *= t.q; return *this; }
-		transform_srt_<T> trans( const transform_srt_<T>& t ) const { return transform_srt_<T>( p + q * t.p, q * t.q ); }
-		transform_srt_<T> inv() const { auto iq = -q; return transform_srt_<T>( iq * -p, iq ); }
-		transform_srt_<T> inv_trans( const transform_srt_<T>& t ) const { return transform_srt_<T>( conjugate( q ) * ( t.p - p ), conjugate( q ) * t.q ); }
+		/// concatenate transforms, scale must be uniform if there is rotation
+		transform_srt_<T> operator*( const transform_srt_<T>& t ) const { return trans( t ); }
+		transform_srt_<T>& operator*=( const transform_srt_<T>& t ) { return *this = trans( t ); }
+		transform_srt_<T> trans( const transform_srt_<T>& t ) const { return transform_srt_<T>( p + q * ( s * t.p ), q * t.q, s * t.s ); }
+		transform_srt_<T> inv() const { auto iq = -q; return transform_srt_<T>( ( iq * -p ) / s, iq, scale3_<T>( T( 1 ) ) / s ); }
+		transform_srt_<T> inv_trans( const transform_srt_<T>& t ) const { return transform_srt_<T>( ( conjugate( q ) * ( t.p - p ) ) / s, conjugate( q ) * t.q, t.s / s ); }
 
 		vec3_<T> trans( const vec3_<T>& v ) const { return p + q * ( s * v ); }
 		vec3_<T> operator*( const vec3_<T>& v ) const { return p + q * ( s * v ); }
-- 
2.43.0


From 71923e6fcf521b62d6fed104b59da1d2d056b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:11 +0000
Subject: [PATCH 55/83] fix: quaternions can be read from Euler angles with an
 order

---
 xo/geometry/quat.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xo/geometry/quat.h b/xo/geometry/quat.h
index c2cecfe..8083cff 100644
--- a/xo/geometry/quat.h
+++ b/xo/geometry/quat.h
@@ -420,8 +420,13 @@ namespace xo
 		}
 		else if ( vec3_< degree_<T> > v; from_prop_node( pn, v ) ) {
 			// quaternion from Euler angles
-			auto order = pn.get< euler_order >( "order", euler_order::xyz );
-			q = quat_from_euler( v, order );
+			q = quat_from_euler( v );
+			return true;
+		}
+		else if ( pn.size() == 4 && pn.has_key( "order" ) ) {
+			// quaternion from Euler angles with specific order
+			v.set( pn.get< degree_<T> >( "x" ), pn.get< degree_<T> >( "y" ), pn.get< degree_<T> >( "z" ) );
+			q = quat_from_euler( v, pn.get< euler_order >( "order" ) );
 			return true;
 		}
 		else return false;
-- 
2.43.0


From 45942f2a50b6bc558f615fe109bcfca48b49e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:28 +0000
Subject: [PATCH 56/83] fix: transforms can be stored in a prop_node

---
 xo/geometry/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/geometry/transform.h b/xo/geometry/transform.h
index 76ac261..ac7b0ce 100644
--- a/xo/geometry/transform.h
+++ b/xo/geometry/transform.h
@@ -20,7 +20,7 @@ namespace xo
 		quat_<T> q;
 
 		/// convert to prop_node
-		explicit operator prop_node() const { return prop_node().set( "p", p ).set( "q", q ); }
+		explicit operator prop_node() const { prop_node pn; pn.set( "p", p ); pn.set( "q", q ); return pn; }
 
 		/// concatenate transforms
 		transform_<T> operator*( const transform_<T>& t ) const { return transform_<T>( p + q * t.p, q * t.q ); }
-- 
2.43.0


From b78a9b556a611b624a95482ba36158c012efc932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:25 +0000
Subject: [PATCH 57/83] fix: negative times can be divided by a size_t

---
 xo/time/time.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/time/time.h b/xo/time/time.h
index fdeb0fc..c05fac5 100644
--- a/xo/time/time.h
+++ b/xo/time/time.h
@@ -30,10 +30,10 @@ namespace xo
 		time operator-() const { return time( -internal_ ); }
 		time operator-( time o ) const { return time( internal_ - o.internal_ ); }
 		time operator+( time o ) const { return time( internal_ + o.internal_ ); }
-		time operator/( size_t n ) const { return time( internal_ / n ); }
+		time operator/( size_t n ) const { return time( internal_ / storage_t( n ) ); }
 		time& operator-=( time o ) { internal_ -= o.internal_; return *this; }
 		time& operator+=( time o ) { internal_ += o.internal_; return *this; }
-		time& operator/=( size_t n ) { internal_ /= n; return *this; }
+		time& operator/=( size_t n ) { internal_ /= storage_t( n ); return *this; }
 
 		// ratio between times
 		double operator/( time v ) const { return double( internal_ ) / double( v.internal_ ); }
-- 
2.43.0


From 1e7b0e7f39847c54aae20ac982938fab5ac81f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:25 +0000
Subject: [PATCH 58/83] fix: conversion to time rounds negative values to
 nearest

---
 xo/time/time.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xo/time/time.h b/xo/time/time.h
index c05fac5..22071a4 100644
--- a/xo/time/time.h
+++ b/xo/time/time.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <cstddef>
 
 namespace xo
@@ -49,9 +50,9 @@ namespace xo
 		storage_t internal_;
 	};
 
-	template< typename T > time time_from_seconds( T s ) { return time( time::storage_t( double( s ) * 1e9 + 0.5 ) ); }
-	template< typename T > time time_from_milliseconds( T s ) { return time( time::storage_t( double( s ) * 1e6 + 0.5 ) ); }
-	template< typename T > time time_from_nanoseconds( T s ) { return time( time::storage_t( double( s ) + 0.5 ) ); }
+	template< typename T > time time_from_seconds( T s ) { return time( time::storage_t( std::floor( double( s ) * 1e9 + 0.5 ) ) ); }
+	template< typename T > time time_from_milliseconds( T s ) { return time( time::storage_t( std::floor( double( s ) * 1e6 + 0.5 ) ) ); }
+	template< typename T > time time_from_nanoseconds( T s ) { return time( time::storage_t( std::floor( double( s ) + 0.5 ) ) ); }
 
 	inline time distance( const time& t1, const time& t2 ) { return t1 > t2 ? t1 - t2 : t2 - t1; }
 
-- 
2.43.0


From 749b174e5f8f10c4902c09315471644bfa62cec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:25 +0000
Subject: [PATCH 59/83] fix: timer keeps its time when paused twice, resumed
 twice or restarted while paused

---
 xo/time/timer.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/xo/time/timer.cpp b/xo/time/timer.cpp
index c01e684..c2d5584 100644
--- a/xo/time/timer.cpp
+++ b/xo/time/timer.cpp
@@ -88,9 +88,10 @@ namespace xo
 
 	time timer::restart()
 	{
-		auto prev_epoch = epoch_;
-		epoch_ = get_tick_count();
-		return get_time_from_ticks( epoch_ - prev_epoch );
+		auto current_ticks = get_tick_count();
+		auto elapsed_ticks = is_running() ? current_ticks - epoch_ : -epoch_;
+		epoch_ = current_ticks;
+		return get_time_from_ticks( elapsed_ticks );
 	}
 
 	void timer::set( time t )
@@ -109,12 +110,14 @@ namespace xo
 	time timer::pause()
 	{
 		// store current time in epoch
-		epoch_ = -( get_tick_count() - epoch_ );
+		if ( is_running() )
+			epoch_ = -( get_tick_count() - epoch_ );
 		return get_time_from_ticks( -epoch_ );
 	}
 
 	void timer::resume()
 	{
-		epoch_ = get_tick_count() + epoch_;
+		if ( is_paused() )
+			epoch_ = get_tick_count() + epoch_;
 	}
 }
-- 
2.43.0


From eb9cf5ce137c6a84b250588801bf4804a92e234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:51 +0000
Subject: [PATCH 60/83] fix: a directory is not a file that exists or can be
 loaded

---
 xo/filesystem/filesystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/filesystem/filesystem.cpp b/xo/filesystem/filesystem.cpp
index 1b65df7..77f102c 100644
--- a/xo/filesystem/filesystem.cpp
+++ b/xo/filesystem/filesystem.cpp
@@ -143,7 +143,7 @@ namespace xo
 	bool file_exists( const path& file )
 	{
 		std::ifstream ifs( file.str() );
-		return ifs.good();
+		return ifs.good() && !directory_exists( file );
 	}
 
 	bool directory_exists( const path& folder )
@@ -266,7 +266,7 @@ namespace xo
 	{
 		// this method uses a stringbuf, which requires an extra copy (C++ suckiness)
 		std::ifstream ifstr( filename.str() );
-		if ( !ifstr.good() )
+		if ( !ifstr.good() || directory_exists( filename ) )
 			return set_error_or_throw( ec, "Could not open " + filename.str() ), "";
 
 		std::stringstream str;
-- 
2.43.0


From ecd902de6d9184b40b78e1706d630328c739c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:12 +0000
Subject: [PATCH 61/83] fix: files included by included zml files are reported,
 and errors opening them are set

---
 xo/serialization/prop_node_serializer_zml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index d1f7b01..1fc3a20 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -66,7 +66,7 @@ namespace xo
 					zml_error( str, ec, "'<<' has no find matching '>>'" );
 				if ( filename.is_relative() )
 					filename = folder / filename;
-				parent.append( load_zml( filename, ec ) );
+				parent.append( load_zml( filename, ec, path(), included_files ) );
 				if ( included_files )
 					included_files->emplace_back( std::move( filename ) );
 			}
@@ -301,7 +301,7 @@ namespace xo
 
 	XO_API prop_node load_zml( const path& filename, error_code* ec, path parent_folder, vector<path>* included_files )
 	{
-		char_stream stream( load_string( filename ) );
+		char_stream stream( load_string( filename, ec ) );
 		return parse_zml( stream, ec, filename.parent_path(), included_files );
 	}
 
-- 
2.43.0


From 5e0b0492ceca1698b4638e91f35bbe7a2c400af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:12 +0000
Subject: [PATCH 62/83] fix: zml files that include each other are refused

---
 xo/serialization/prop_node_serializer_zml.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 1fc3a20..ef4abd1 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -67,6 +67,8 @@ namespace xo
 				if ( filename.is_relative() )
 					filename = folder / filename;
 				parent.append( load_zml( filename, ec, path(), included_files ) );
+				if ( ec && ec->bad() )
+					return; // error in included file
 				if ( included_files )
 					included_files->emplace_back( std::move( filename ) );
 			}
@@ -301,6 +303,12 @@ namespace xo
 
 	XO_API prop_node load_zml( const path& filename, error_code* ec, path parent_folder, vector<path>* included_files )
 	{
+		// keep track of the include level to detect loops
+		thread_local int include_level = 0;
+		struct level_guard { level_guard() { ++include_level; } ~level_guard() { --include_level; } } guard;
+		if ( include_level > 100 )
+			return set_error_or_throw( ec, "Exceeded maximum include level, check for loops in " + filename.str() ), prop_node();
+
 		char_stream stream( load_string( filename, ec ) );
 		return parse_zml( stream, ec, filename.parent_path(), included_files );
 	}
-- 
2.43.0


From d2e1b8d8fa5ec7fd9b1d469c24c986c18594aaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:12 +0000
Subject: [PATCH 63/83] fix: the last element of a file without newline is read

---
 xo/serialization/container_io.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/xo/serialization/container_io.h b/xo/serialization/container_io.h
index 40b02c2..cf9490b 100644
--- a/xo/serialization/container_io.h
+++ b/xo/serialization/container_io.h
@@ -14,12 +14,9 @@ namespace xo
 
 	template< typename T >
 	std::istream& operator>>( std::istream& is, std::vector<T>& v ) {
-		while ( is.good() ) {
-			T element;
-			is >> element;
-			if ( is.good() )
-				v.emplace_back( element );
-		}
+		T element;
+		while ( is >> element )
+			v.emplace_back( element );
 		return is;
 	}
 
-- 
2.43.0


From a18515c62314c3435dbbd40b167588e0b2e35923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:34 +0000
Subject: [PATCH 64/83] fix: setting the level of a log sink that was removed
 does not add it again

---
 xo/system/log.cpp      | 6 ++++++
 xo/system/log.h        | 1 +
 xo/system/log_sink.cpp | 3 +--
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/xo/system/log.cpp b/xo/system/log.cpp
index a22e881..cc4256e 100644
--- a/xo/system/log.cpp
+++ b/xo/system/log.cpp
@@ -66,6 +66,12 @@ namespace xo
 			update_global_log_level_thread_unsafe();
 		}
 
+		void update_global_log_level()
+		{
+			std::unique_lock lock{ global_sink_mutex };
+			update_global_log_level_thread_unsafe();
+		}
+
 		bool test_log_level( level l )
 		{
 			if ( l < global_lowest_log_level )
diff --git a/xo/system/log.h b/xo/system/log.h
index be6101b..ce56069 100644
--- a/xo/system/log.h
+++ b/xo/system/log.h
@@ -22,6 +22,7 @@ namespace xo
 		class sink;
 		XO_API void add_sink( sink* s );
 		XO_API void remove_sink( sink* s );
+		XO_API void update_global_log_level();
 
 		// test log level for all sinks
 		XO_API bool test_log_level( level l );
diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index 507ff18..95a672e 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -50,8 +50,7 @@ namespace xo
 		void sink::set_log_level( level l )
 		{
 			log_level_ = l;
-			remove_sink( this );
-			add_sink( this ); // re-add to update global log level
+			update_global_log_level();
 		}
 
 		level sink::get_log_level()
-- 
2.43.0


From 0897b2ae3913b9b9215cf23aa1c89fb6d1cb3851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:34 +0000
Subject: [PATCH 65/83] fix: messages with level error or higher are flushed,
 also via message and messagef

---
 xo/system/log.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xo/system/log.cpp b/xo/system/log.cpp
index cc4256e..f3fa7c7 100644
--- a/xo/system/log.cpp
+++ b/xo/system/log.cpp
@@ -22,6 +22,9 @@ namespace xo
 			std::shared_lock lock{ global_sink_mutex };
 			for ( auto s : global_sinks )
 				s->submit_log_message( l, str );
+			if ( l >= level::error )
+				for ( auto s : global_sinks )
+					s->flush();
 		}
 
 		void log_vstring( level l, const char* format, va_list list )
-- 
2.43.0


From 3330b988c5999b3a4a3512af456e5160576dcdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 66/83] fix: settings with a range keep all digits of values
 within the range, and are refused when not numeric

---
 xo/system/settings.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/xo/system/settings.cpp b/xo/system/settings.cpp
index aee4e96..342b7f7 100644
--- a/xo/system/settings.cpp
+++ b/xo/system/settings.cpp
@@ -68,15 +68,21 @@ namespace xo
 			// check if the setting is within a specified 'range'
 			if ( auto range = schema_node->try_get< bounds< double > >( "range" ) )
 			{
-				auto dvalue = schema_node->get< double >( "default" );
-				from_str( value.get_str(), dvalue );
+				double dvalue;
+				if ( !from_str( value.get_str(), dvalue ) )
+				{
+					log::error( "Error setting ", id, ": '", value.get_str(), "' is not a number" );
+					return false;
+				}
 				if ( !range->is_within( dvalue ) )
 				{
 					log::warning( "Invalid value for ", id, ": ", dvalue, ", restricting to range ", *range );
 					range->clamp( dvalue );
+					if ( type == "int" )
+						data_.set_query( id, static_cast<int>( dvalue ) );
+					else data_.set_query( id, dvalue );
+					return true;
 				}
-				data_.set_query( id, dvalue );
-				return true;
 			}
 
 			// value can be set
-- 
2.43.0


From 24d56fb99037684aacb6254d3ce819ecc3ad350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:31 +0000
Subject: [PATCH 67/83] fix: the postfix of a version is written such that it
 can be read

---
 xo/string/string_cast.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/string/string_cast.cpp b/xo/string/string_cast.cpp
index a5bf4fc..11a4428 100644
--- a/xo/string/string_cast.cpp
+++ b/xo/string/string_cast.cpp
@@ -148,7 +148,7 @@ namespace xo
 	{
 		string s = stringf( "%d.%d.%d", v.major_, v.minor_, v.patch_ );
 		if ( v.build_ > 0 ) s += stringf( ".%d", v.build_ );
-		if ( !v.postfix_.empty() ) s += v.postfix_;
+		if ( !v.postfix_.empty() ) s += ' ' + v.postfix_;
 		return s;
 	}
 
-- 
2.43.0


From b7b23069b30a40e815fde1f350066586710e544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:45 +0000
Subject: [PATCH 68/83] fix: negative hues turn around instead of giving black

---
 xo/utility/color.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xo/utility/color.cpp b/xo/utility/color.cpp
index e60225b..e18aac9 100644
--- a/xo/utility/color.cpp
+++ b/xo/utility/color.cpp
@@ -63,6 +63,10 @@ namespace xo
 	color color_from_hsv( float H, float S, float V )
 	{
 		H = fmod( H, 360.0f ) / 60.0f;
+		if ( H < 0.0f )
+			H += 6.0f;
+		if ( H >= 6.0f )
+			H = 0.0f;
 		float fract = H - floor( H );
 		float P = V * ( 1.0f - S );
 		float Q = V * ( 1.0f - S * fract );
-- 
2.43.0


From b37bbfbdf2b1535d570abce2ee28ed64835563dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:45 +0000
Subject: [PATCH 69/83] fix: text that is no hexadecimal number is not a color

---
 xo/utility/color.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/utility/color.cpp b/xo/utility/color.cpp
index e18aac9..ea8796f 100644
--- a/xo/utility/color.cpp
+++ b/xo/utility/color.cpp
@@ -35,6 +35,8 @@ namespace xo
 				else {
 					bool has_0x = xo::str_begins_with( str, "0x" );
 					size_t num_digits = has_0x ? str.size() - 2 : str.size();
+					if ( num_digits == 0 || num_digits > 8 || str.find_first_not_of( "0123456789abcdef", has_0x ? 2 : 0 ) != std::string::npos )
+						return false;
 					auto value = static_cast<uint32>( std::stoul( str, 0, 16 ) );
 
 					if ( num_digits == 8 )
-- 
2.43.0


From 00d97fd202cbff009b6d7fd68a053676037e3b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:30 +0000
Subject: [PATCH 70/83] fix: file_resource_cache.h includes functional

---
 xo/utility/file_resource_cache.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xo/utility/file_resource_cache.h b/xo/utility/file_resource_cache.h
index 66fa888..9a4f7a8 100644
--- a/xo/utility/file_resource_cache.h
+++ b/xo/utility/file_resource_cache.h
@@ -5,6 +5,7 @@
 #include "xo/container/container_tools.h"
 #include "xo/string/string_type.h"
 
+#include <functional>
 #include <mutex>
 #include <shared_mutex>
 #include <ctime>
-- 
2.43.0


From 05af26a0b4cf8b12b6d2a74864fc9295e97a877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:45 +0000
Subject: [PATCH 71/83] fix: messages of several threads to the same stream are
 not mixed

---
 xo/system/log_sink.cpp | 2 ++
 xo/system/log_sink.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index 95a672e..bd775c1 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -73,11 +73,13 @@ namespace xo
 		{
 			// #todo: make the time prefix an option
 			auto str = get_date_time_str( "%H:%M:%S " );
+			std::scoped_lock lock( stream_mutex_ );
 			stream_ << str << msg << std::endl;
 		}
 
 		void stream_sink::flush()
 		{
+			std::scoped_lock lock( stream_mutex_ );
 			stream_.flush();
 		}
 
diff --git a/xo/system/log_sink.h b/xo/system/log_sink.h
index 269262d..68989f1 100644
--- a/xo/system/log_sink.h
+++ b/xo/system/log_sink.h
@@ -5,6 +5,7 @@
 #include "xo/filesystem/path.h"
 
 #include <fstream>
+#include <mutex>
 #include <thread>
 #include "log_format.h"
 
@@ -57,6 +58,7 @@ namespace xo
 
 		protected:
 			std::ostream& stream_;
+			std::mutex stream_mutex_;
 		};
 
 		class XO_API console_sink : public stream_sink
-- 
2.43.0


From 41afb20700a58f88a8b69916a55aa64e2468d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:45 +0000
Subject: [PATCH 72/83] fix: log sinks get no messages while they are destroyed

---
 xo/system/log_sink.cpp | 16 ++++++++++++++++
 xo/system/log_sink.h   |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index bd775c1..64cebd6 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -69,6 +69,12 @@ namespace xo
 			stream_( str )
 		{}
 
+		stream_sink::~stream_sink()
+		{
+			// other threads must not use this sink after it is partly destroyed
+			remove_sink( this );
+		}
+
 		void stream_sink::hande_log_message( level l, const string& msg )
 		{
 			// #todo: make the time prefix an option
@@ -87,6 +93,11 @@ namespace xo
 			stream_sink( std::cout, l, m )
 		{}
 
+		console_sink::~console_sink()
+		{
+			remove_sink( this );
+		}
+
 		void console_sink::hande_log_message( level l, const string& msg )
 		{
 			auto prefix = get_log_prefix( format_, l );
@@ -143,6 +154,11 @@ namespace xo
 			file_stream_.open( file.str() );
 		}
 
+		file_sink::~file_sink()
+		{
+			remove_sink( this );
+		}
+
 		void file_sink::hande_log_message( level l, const string& msg )
 		{
 			if ( file_stream_.good() )
diff --git a/xo/system/log_sink.h b/xo/system/log_sink.h
index 68989f1..99c18a4 100644
--- a/xo/system/log_sink.h
+++ b/xo/system/log_sink.h
@@ -53,6 +53,7 @@ namespace xo
 		{
 		public:
 			stream_sink( std::ostream& str, level l, sink_mode m = sink_mode::all_threads );
+			virtual ~stream_sink();
 			virtual void hande_log_message( level l, const string& msg ) override;
 			virtual void flush() override;
 
@@ -65,6 +66,7 @@ namespace xo
 		{
 		public:
 			console_sink( level l, sink_mode m = sink_mode::all_threads );
+			virtual ~console_sink();
 			virtual void hande_log_message( level l, const string& msg ) override;
 		};
 
@@ -72,6 +74,7 @@ namespace xo
 		{
 		public:
 			file_sink( const path& file, level l, sink_mode m = sink_mode::all_threads );
+			virtual ~file_sink();
 			virtual void hande_log_message( level l, const string& msg ) override;
 			const std::ofstream& file_stream() const { return file_stream_; }
 
-- 
2.43.0


From 4febb1044754e3ca80b2132db5eca7a961e5e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:35 +0000
Subject: [PATCH 73/83] fix: log sinks get no messages while they are
 constructed

---
 xo/system/log_sink.cpp | 16 +++++++++++-----
 xo/system/log_sink.h   | 11 +++++++----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/xo/system/log_sink.cpp b/xo/system/log_sink.cpp
index 64cebd6..462dd28 100644
--- a/xo/system/log_sink.cpp
+++ b/xo/system/log_sink.cpp
@@ -65,9 +65,12 @@ namespace xo
 		}
 
 		stream_sink::stream_sink( std::ostream& str, level l, sink_mode m ) :
-			sink( l, { format::show_time }, m ),
+			sink( level::never, { format::show_time }, m ),
 			stream_( str )
-		{}
+		{
+			// no messages are accepted until the sink is complete
+			stream_sink::set_log_level( l );
+		}
 
 		stream_sink::~stream_sink()
 		{
@@ -90,8 +93,10 @@ namespace xo
 		}
 
 		console_sink::console_sink( level l, sink_mode m ) :
-			stream_sink( std::cout, l, m )
-		{}
+			stream_sink( std::cout, level::never, m )
+		{
+			console_sink::set_log_level( l );
+		}
 
 		console_sink::~console_sink()
 		{
@@ -147,11 +152,12 @@ namespace xo
 		}
 
 		file_sink::file_sink( const path& file, level l, sink_mode m ) :
-			stream_sink( file_stream_, l, m )
+			stream_sink( file_stream_, level::never, m )
 		{
 			if ( file.has_parent_path() )
 				create_directories( file.parent_path() );
 			file_stream_.open( file.str() );
+			file_sink::set_log_level( l );
 		}
 
 		file_sink::~file_sink()
diff --git a/xo/system/log_sink.h b/xo/system/log_sink.h
index 99c18a4..7d0af9f 100644
--- a/xo/system/log_sink.h
+++ b/xo/system/log_sink.h
@@ -70,16 +70,19 @@ namespace xo
 			virtual void hande_log_message( level l, const string& msg ) override;
 		};
 
-		class XO_API file_sink : public stream_sink
+		struct file_stream_owner
+		{
+			std::ofstream file_stream_;
+		};
+
+		// the stream is owned by a base, so that it exists before the sink is added
+		class XO_API file_sink : protected file_stream_owner, public stream_sink
 		{
 		public:
 			file_sink( const path& file, level l, sink_mode m = sink_mode::all_threads );
 			virtual ~file_sink();
 			virtual void hande_log_message( level l, const string& msg ) override;
 			const std::ofstream& file_stream() const { return file_stream_; }
-
-		protected:
-			std::ofstream file_stream_;
 		};
 	}
 }
-- 
2.43.0


From 14df386d7b723f5e4053e65d21dcef48001a3373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:27 +0000
Subject: [PATCH 74/83] fix: reporting unaccessed properties does not mark them
 as accessed

---
 xo/container/prop_node_tools.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xo/container/prop_node_tools.cpp b/xo/container/prop_node_tools.cpp
index ffec57c..831088d 100644
--- a/xo/container/prop_node_tools.cpp
+++ b/xo/container/prop_node_tools.cpp
@@ -45,8 +45,9 @@ namespace xo
 	{
 		if ( pn.size() > 0 )
 		{
-			for ( auto& n : pn )
+			for ( index_t i = 0; i < pn.size(); ++i )
 			{
+				auto& n = pn.at( i ); // does not mark pn as accessed
 				if ( n.second.count_unaccessed() > 0 )
 				{
 					string str = string( depth * 2, ' ' ) + n.first;
@@ -67,8 +68,9 @@ namespace xo
 	{
 		if ( pn.size() > 0 )
 		{
-			for ( auto& n : pn )
+			for ( index_t i = 0; i < pn.size(); ++i )
 			{
+				auto& n = pn.at( i ); // does not mark pn as accessed
 				if ( n.second.count_unaccessed() > 0 )
 				{
 					str += string( depth * 2, ' ' ) + n.first;
-- 
2.43.0


From 6579dfe886a40067ef0bf4083ea1790b6f43aa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:27 +0000
Subject: [PATCH 75/83] fix: a test case that ends with an exception without
 message is not a success

---
 xo/system/test_case.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/system/test_case.cpp b/xo/system/test_case.cpp
index a67fea7..c51ab53 100644
--- a/xo/system/test_case.cpp
+++ b/xo/system/test_case.cpp
@@ -57,6 +57,8 @@ namespace xo
 			catch ( std::exception& e )
 			{
 				result_.error_ = e.what();
+				if ( result_.error_.empty() )
+					result_.error_ = "exception without message";
 				return false;
 			}
 		}
-- 
2.43.0


From a9f2f74a2c1fde2301a3213ee8b60607445705cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 76/83] Revert "a test case that ends with an exception without
 message is not a success" (test_case.cpp is left as it was)

---
 xo/system/test_case.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/xo/system/test_case.cpp b/xo/system/test_case.cpp
index c51ab53..a67fea7 100644
--- a/xo/system/test_case.cpp
+++ b/xo/system/test_case.cpp
@@ -57,8 +57,6 @@ namespace xo
 			catch ( std::exception& e )
 			{
 				result_.error_ = e.what();
-				if ( result_.error_.empty() )
-					result_.error_ = "exception without message";
 				return false;
 			}
 		}
-- 
2.43.0


From 15562b71eedd0cf3a6b0ff5d0692b1fb1557a0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 77/83] fix: stringf and formatted log messages are not cut off

---
 xo/string/string_tools.cpp | 14 +++++++++++---
 xo/system/log.cpp          | 13 +++++++++++--
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index 7358393..d0b6f88 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -260,12 +260,20 @@ namespace xo
 #	pragma warning( push )
 #	pragma warning( disable: 4996 )
 #endif
-		va_list args;
+		va_list args, args_copy;
 		va_start( args, format );
+		va_copy( args_copy, args );
 		char buf[256];
-		vsnprintf( buf, sizeof( buf ), format, args );
+		auto len = vsnprintf( buf, sizeof( buf ), format, args );
+		string str;
+		if ( len >= int( sizeof( buf ) ) ) {
+			str.resize( size_t( len ) ); // did not fit
+			vsnprintf( &str[0], str.size() + 1, format, args_copy );
+		}
+		else str = buf;
+		va_end( args_copy );
 		va_end( args );
-		return string( buf );
+		return str;
 #ifdef XO_COMP_MSVC
 #	pragma warning( pop )
 #endif
diff --git a/xo/system/log.cpp b/xo/system/log.cpp
index f3fa7c7..808afc0 100644
--- a/xo/system/log.cpp
+++ b/xo/system/log.cpp
@@ -31,9 +31,18 @@ namespace xo
 		{
 			if ( test_log_level( l ) ) // check for global log level first
 			{
+				va_list list_copy;
+				va_copy( list_copy, list );
 				char buf[1024];
-				vsnprintf( buf, sizeof( buf ), format, list );
-				log_string( l, string( buf ) ); // #todo: use string_view
+				auto len = vsnprintf( buf, sizeof( buf ), format, list );
+				string str;
+				if ( len >= int( sizeof( buf ) ) ) {
+					str.resize( size_t( len ) ); // did not fit
+					vsnprintf( &str[0], str.size() + 1, format, list_copy );
+				}
+				else str = buf;
+				va_end( list_copy );
+				log_string( l, str ); // #todo: use string_view
 			}
 		}
 
-- 
2.43.0


From 9328cd76acb1a72f40f341a430507394e5169ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:47 +0000
Subject: [PATCH 78/83] fix: console_plot scales functions below zero, and
 draws constant functions

---
 xo/numerical/console_plot.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/numerical/console_plot.h b/xo/numerical/console_plot.h
index 74bc716..535c782 100644
--- a/xo/numerical/console_plot.h
+++ b/xo/numerical/console_plot.h
@@ -9,7 +9,7 @@ namespace xo
 {
 	template< typename T >
 	void console_plot( std::vector< std::function<T( T )> > fns, T x_min, T x_max, int width, int height ) {
-		if ( width < 1 || height < 1 ) {
+		if ( width <= 1 || height <= 1 ) {
 			std::cout << "width and height must be > 1" << std::endl;
 			return;
 		}
@@ -20,7 +20,7 @@ namespace xo
 
 		auto x_span = x_max - x_min;
 		auto y_min = std::numeric_limits<T>::max();
-		auto y_max = std::numeric_limits<T>::min();
+		auto y_max = std::numeric_limits<T>::lowest();
 
 		std::vector< std::vector<T> > fn_ys;
 		for ( auto& fn : fns ) {
@@ -33,7 +33,7 @@ namespace xo
 				y_max = std::max( y_max, y );
 			}
 		}
-		auto y_span = y_max - y_min;
+		auto y_span = y_max > y_min ? y_max - y_min : T( 1 );
 
 		auto grid_x = [&]( T x ) {
 			return static_cast<int>( std::floor( 0.5 + ( width - 1 ) * ( x - x_min ) / x_span ) ); };
-- 
2.43.0


From ed76136cbd272a16d9e30b7fca2255c47c4fe33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:40 +0000
Subject: [PATCH 79/83] fix: an empty handle_span can be constructed

---
 xo/utility/handle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/handle.h b/xo/utility/handle.h
index 6351deb..bdc4fba 100644
--- a/xo/utility/handle.h
+++ b/xo/utility/handle.h
@@ -73,7 +73,7 @@ namespace xo
 			handle_type handle_;
 		};
 
-		constexpr handle_span() : begin_(), end_() {}
+		constexpr handle_span() : begin_( handle_type() ), end_( handle_type() ) {}
 		constexpr handle_span( handle_type b, handle_type e ) : begin_( b ), end_( e ) {}
 		constexpr handle_span( iterator b, iterator e ) : begin_( b ), end_( e ) {}
 
-- 
2.43.0


From 7f3b14cb3c7c071924367712c4b0ae9c7d80ed2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:25 +0000
Subject: [PATCH 80/83] fix: names of templates in the global namespace have no
 template arguments

---
 xo/system/system_tools.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/xo/system/system_tools.cpp b/xo/system/system_tools.cpp
index 9927117..7e62133 100644
--- a/xo/system/system_tools.cpp
+++ b/xo/system/system_tools.cpp
@@ -95,13 +95,10 @@ namespace xo
 #endif
 		auto endpos = name.find_first_of( "<" );
 		size_t pos = name.find_last_of( ": ", endpos );
-		if ( pos != std::string::npos )
-		{
-			if ( endpos != std::string::npos )
-				return name.substr( pos + 1, endpos - pos - 1 );
-			else return name.substr( pos + 1 );
-		}
-		else return name;
+		pos = pos != std::string::npos ? pos + 1 : 0;
+		if ( endpos != std::string::npos )
+			return name.substr( pos, endpos - pos );
+		else return name.substr( pos );
 	}
 
 	string get_computer_name()
-- 
2.43.0


From eb93b21b256e593972d146638ae7b38f2141d7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:29 +0000
Subject: [PATCH 81/83] fix: storage has no values before its first frame

---
 xo/container/storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/storage.h b/xo/container/storage.h
index 8402002..7f7f0d1 100644
--- a/xo/container/storage.h
+++ b/xo/container/storage.h
@@ -118,7 +118,7 @@ namespace xo
 			auto frame_f = floor( frame_idx );
 			auto frame_w = frame_idx - frame_f;
 			index_t frame0 = static_cast<index_t>( frame_f );
-			xo_assert( frame0 + 1 < frame_size() );
+			xo_assert( frame_idx >= T( 0 ) && frame0 + 1 < frame_size() );
 			index_t ofs = frame0 * this->channel_size() + channel;
 			return ( T( 1 ) - frame_w ) * data_[ofs] + frame_w * data_[ofs + this->channel_size()];
 		}
-- 
2.43.0


From 7af665100e8413762c9efabff48898b374d3f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:13 +0000
Subject: [PATCH 82/83] fix: queries to nodes keep parts that are empty keys

---
 xo/container/prop_node_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/container/prop_node_tools.cpp b/xo/container/prop_node_tools.cpp
index 831088d..9dfb8e5 100644
--- a/xo/container/prop_node_tools.cpp
+++ b/xo/container/prop_node_tools.cpp
@@ -104,7 +104,7 @@ namespace xo
 		{
 			auto result = find_query_to_node( &child.second, to, delim );
 			if ( result.first )
-				return { true, result.second.empty() ? child.first : child.first + delim + result.second };
+				return { true, &child.second == to ? child.first : child.first + delim + result.second };
 		}
 
 		return { false, "" };
@@ -157,7 +157,7 @@ namespace xo
 		auto p = root.try_find_parent( item );
 		while ( p.first )
 		{
-			if ( str.empty() )
+			if ( &p.first->get_child( p.second ) == &item )
 				str = p.first->get_key( p.second );
 			else str = p.first->get_key( p.second ) + '.' + str;
 			if ( p.first != &root )
-- 
2.43.0


From e824f311fbfca8d6450057d362166e43e673edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:12 +0000
Subject: [PATCH 83/83] fix: the square wave has a period of 2 for negative
 values too

---
 xo/numerical/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/math.h b/xo/numerical/math.h
index 42bf1f6..f6eadb0 100644
--- a/xo/numerical/math.h
+++ b/xo/numerical/math.h
@@ -139,7 +139,7 @@ namespace xo
 
 	/// square wave, period = 2, min = 0, max = 1
 	template< typename T > T square_wave( T v ) {
-		return std::fmod( v, T( 2 ) ) < T( 1 ) ? T( 1 ) : T( 0 );
+		return v - T( 2 ) * std::floor( T( 0.5 ) * v ) < T( 1 ) ? T( 1 ) : T( 0 );
 	}
 
 	/// triangle wave, period = 2, min = 0, max = 1
-- 
2.43.0

