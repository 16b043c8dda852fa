From c0f5dde9efe23e2f8386b260ba7c66ceeb877442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 01/15] fix: what() never returns when a substituted value
 contains its own placeholder

---
 src/value_semantic.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index de7b2ac..4bfae77 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -270,13 +270,16 @@ namespace boost { namespace program_options {
 
     void error_with_option_name::replace_token(const string& from, const string& to) const
     {
+        std::size_t start = 0;
         for (;;)
         {
-            std::size_t pos = m_message.find(from.c_str(), 0, from.length());
+            std::size_t pos = m_message.find(from.c_str(), start, from.length());
             // not found: all replaced
             if (pos == std::string::npos)
                 return;
             m_message.replace(pos, from.length(), to);
+            // do not rescan the replacement: it may itself contain 'from'
+            start = pos + to.length();
         }
     }
 
-- 
2.43.0


From 34edaf80f04f60ee1e413c13c259eb28ff0eb547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 02/15] fix: out of bounds read of original_tokens when an
 option without tokens is ambiguous

---
 src/cmdline.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 8f4ae64..a063764 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -311,7 +311,11 @@ namespace boost { namespace program_options { namespace detail {
             catch(error_with_option_name& e)
             {
                 // add context and rethrow
-                e.add_context(opt.string_key, opt.original_tokens[0], get_canonical_option_prefix());
+                // (options made by handle_additional_parser() and all but the last of a
+                //  group of sticky short options have no original token)
+                e.add_context(opt.string_key,
+                              opt.original_tokens.empty() ? opt.string_key : opt.original_tokens[0],
+                              get_canonical_option_prefix());
                 throw;
             }
 
-- 
2.43.0


From da02793a1da7a89e05d085ea0d271ca29ab8a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 03/15] fix: reading the last character of an empty config file
 section name

---
 src/config_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index d586523..a3c01cd 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -97,7 +97,7 @@ namespace boost { namespace program_options { namespace detail {
                 // Handle section name
                 if (*s.begin() == '[' && *s.rbegin() == ']') {
                     m_prefix = s.substr(1, s.size()-2);
-                    if (*m_prefix.rbegin() != '.')
+                    if (m_prefix.empty() || *m_prefix.rbegin() != '.')
                         m_prefix += '.';
                 }
                 else if ((n = s.find('=')) != string::npos) {
-- 
2.43.0


From 2ffc4c16cea6406d6eca763a9f28a93ac2b5ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 04/15] fix: wide parsing results lose the case_insensitive
 flag

---
 src/parsers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers.cpp b/src/parsers.cpp
index 4dac608..675643a 100644
--- a/src/parsers.cpp
+++ b/src/parsers.cpp
@@ -75,6 +75,7 @@ namespace boost { namespace program_options {
             result.string_key = opt.string_key;
             result.position_key = opt.position_key;
             result.unregistered = opt.unregistered;
+            result.case_insensitive = opt.case_insensitive;
             
             std::transform(opt.value.begin(), opt.value.end(),
                            back_inserter(result.value),
-- 
2.43.0


From 91eff758878653eb5fa1368963aa179dab5387e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 05/15] fix: initialise every scalar member of parsers and
 iterators in all constructors

---
 include/boost/program_options/detail/config_file.hpp   | 4 +++-
 include/boost/program_options/detail/parsers.hpp       | 3 ++-
 include/boost/program_options/environment_iterator.hpp | 1 +
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/program_options/detail/config_file.hpp b/include/boost/program_options/detail/config_file.hpp
index 808bec7..068c222 100644
--- a/include/boost/program_options/detail/config_file.hpp
+++ b/include/boost/program_options/detail/config_file.hpp
@@ -71,7 +71,9 @@ namespace boost { namespace program_options { namespace detail {
         : public eof_iterator<common_config_file_iterator, option>
     {
     public:
-        common_config_file_iterator() { found_eof(); }
+        common_config_file_iterator()
+        : m_allow_unregistered(false)
+        { found_eof(); }
         common_config_file_iterator(
             const std::set<std::string>& allowed_options,
             bool allow_unregistered = false);
diff --git a/include/boost/program_options/detail/parsers.hpp b/include/boost/program_options/detail/parsers.hpp
index cdda539..c20fe27 100644
--- a/include/boost/program_options/detail/parsers.hpp
+++ b/include/boost/program_options/detail/parsers.hpp
@@ -16,7 +16,8 @@ namespace boost { namespace program_options {
     basic_command_line_parser<charT>::
     basic_command_line_parser(const std::vector<
                               std::basic_string<charT> >& xargs)
-       : detail::cmdline(to_internal(xargs))
+       : detail::cmdline(to_internal(xargs)),
+         m_desc()
     {}
 
 
diff --git a/include/boost/program_options/environment_iterator.hpp b/include/boost/program_options/environment_iterator.hpp
index 933919d..22b3495 100644
--- a/include/boost/program_options/environment_iterator.hpp
+++ b/include/boost/program_options/environment_iterator.hpp
@@ -26,6 +26,7 @@ namespace boost {
         }
         
         environment_iterator()
+        : m_environment(0)
         {
             found_eof();
         }
-- 
2.43.0


From c6099d117cada0880c1292ce91c25ea1bd4d6f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:35 +0000
Subject: [PATCH 06/15] fix: short names were matched against the option folded
 by the long-name case setting

---
 src/options_description.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/options_description.cpp b/src/options_description.cpp
index 0efdc33..7e16932 100644
--- a/src/options_description.cpp
+++ b/src/options_description.cpp
@@ -114,9 +114,11 @@ namespace boost { namespace program_options {
 
         if (result != full_match)
         {
+            // The short name has its own case setting.
+            std::string local_short_option(short_ignore_case ? tolower_(option) : option);
             std::string local_short_name(short_ignore_case ? tolower_(m_short_name) : m_short_name);
 
-            if (local_short_name == local_option)
+            if (local_short_name == local_short_option)
             {
                 result = full_match;
             }
-- 
2.43.0


From 5d586d391c56550923e61de3c2fb6ff51b0c5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:44 +0000
Subject: [PATCH 07/15] fix: look-ahead called the remaining style parsers
 without a token once one had consumed it

---
 src/cmdline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index a063764..4d5cd49 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -475,7 +475,7 @@ namespace boost { namespace program_options { namespace detail {
                     // additionally we check if an option_description exists
                     vector<option> followed_option;  
                     vector<string> next_token(1, other_tokens[0]);      
-                    for (unsigned i = 0; followed_option.empty() && i < style_parsers.size(); ++i)
+                    for (unsigned i = 0; followed_option.empty() && !next_token.empty() && i < style_parsers.size(); ++i)
                     {
                         followed_option = style_parsers[i](next_token);
                     }
-- 
2.43.0


From 5f06ffdc845d7229c7be3f8e5b3ca12c8ad9e76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:44 +0000
Subject: [PATCH 08/15] fix: disguised long options reported a rewritten token
 as their original token

---
 src/cmdline.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 4d5cd49..f03f3c3 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -652,10 +652,14 @@ namespace boost { namespace program_options { namespace detail {
                                          is_style_active(long_case_insensitive),
                                          is_style_active(short_case_insensitive)))
                 {
+                    const string original_token = tok;
                     args[0].insert(0, "-");
                     if (args[0][1] == '/')
                         args[0][1] = '-';
-                    return parse_long_option(args);
+                    vector<option> result = parse_long_option(args);
+                    // report the token as it was given
+                    result[0].original_tokens[0] = original_token;
+                    return result;
                 }
             } 
             catch(error_with_option_name& e)
-- 
2.43.0


From 3dc2d85affcfedf23b898ab1021878c704e20e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 09/15] fix: options made by an additional parser had no
 original token and were lost by collect_unrecognized

---
 src/cmdline.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index f03f3c3..90626c3 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -702,6 +702,7 @@ namespace boost { namespace program_options { namespace detail {
             next.string_key = r.first;
             if (!r.second.empty())
                 next.value.push_back(r.second);
+            next.original_tokens.push_back(args[0]);
             result.push_back(next);
             args.erase(args.begin());
         }
-- 
2.43.0


From 68cba8eee36edf5aba997bf8a143c3db630c6a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 10/15] fix: std::string options of wide parsers stored a
 std::wstring

---
 src/value_semantic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index 4bfae77..a25c7fb 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -196,7 +196,7 @@ namespace boost { namespace program_options {
     void validate(any& v, const vector<wstring>& xs, std::string*, int)
     {
         check_first_occurrence(v);
-        v = any(get_single_string(xs));
+        v = any(to_local_8_bit(get_single_string(xs)));
     }
 #endif
 
-- 
2.43.0


From 08669d121b7ef88a7fda03ddde3786025e6b976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 11/15] fix: accept a config file setting whose name is the
 wildcard prefix itself

---
 src/config_file.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index a3c01cd..4deec88 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -135,10 +135,10 @@ namespace boost { namespace program_options { namespace detail {
         set<string>::const_iterator i = allowed_options.find(s);
         if (i != allowed_options.end())
             return true;        
-        // If s is "pa" where "p" is allowed prefix then
-        // lower_bound should find the element after "p". 
+        // If s is "pa" where "p" is allowed prefix, or "p" itself, then
+        // upper_bound should find the element after "p". 
         // This depends on 'allowed_prefixes' invariant.
-        i = allowed_prefixes.lower_bound(s);
+        i = allowed_prefixes.upper_bound(s);
         if (i != allowed_prefixes.begin() && s.find(*--i) == 0)
             return true;
         return false;
-- 
2.43.0


From 8f6adc2bb59931c14ff384fe4d0eb109ee25ccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 12/15] fix: name the option that lacks its argument, not the
 one that follows

---
 src/cmdline.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmdline.cpp b/src/cmdline.cpp
index 90626c3..f95e3c1 100644
--- a/src/cmdline.cpp
+++ b/src/cmdline.cpp
@@ -415,6 +415,7 @@ namespace boost { namespace program_options { namespace detail {
         std::string original_token_for_exceptions = opt.string_key;
         if (opt.original_tokens.size())
             original_token_for_exceptions = opt.original_tokens[0];
+        const std::string own_token = original_token_for_exceptions;
 
         try
         {
@@ -486,6 +487,8 @@ namespace boost { namespace program_options { namespace detail {
                                   is_style_active(allow_guessing),
                                   is_style_active(long_case_insensitive),
                                   is_style_active(short_case_insensitive));
+                        // from here on it is this option that is in error
+                        original_token_for_exceptions = own_token;
                         if (od) 
                             boost::throw_exception(
                                 invalid_command_line_syntax(invalid_command_line_syntax::missing_parameter));
-- 
2.43.0


From 887dd20c373a38f8731e21c92560ed2433b862f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 13/15] fix: text of the user in an error message was taken for
 a placeholder

---
 src/value_semantic.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index a25c7fb..4292c13 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -350,10 +350,24 @@ namespace boost { namespace program_options {
         //
         //  replace placeholder with values
         //  placeholder are denoted by surrounding '%'
-        // 
-        for (map<string, string>::iterator iter = substitutions.begin();
-              iter != substitutions.end(); ++iter)
-            replace_token('%' + iter->first + '%', iter->second);
+        //  (in a single pass: a value may contain what looks like a placeholder)
+        //
+        string::size_type pos = m_message.find('%');
+        while (pos != string::npos)
+        {
+            const string::size_type last = m_message.find('%', pos + 1);
+            if (last == string::npos)
+                break;
+            map<string, string>::const_iterator iter =
+                substitutions.find(m_message.substr(pos + 1, last - pos - 1));
+            if (iter == substitutions.end())
+            {
+                pos = last;
+                continue;
+            }
+            m_message.replace(pos, last - pos + 1, iter->second);
+            pos = m_message.find('%', pos + iter->second.length());
+        }
     }
 
 
-- 
2.43.0


From b2995c9cd7751b4984110e913a48cc3e2df69dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:41 +0000
Subject: [PATCH 14/15] fix: name the wildcard that really clashes

When the declared prefixes contain an element that starts with the new one,
the following check moved the iterator to the preceding element, and the error
named that unrelated option.
---
 src/config_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config_file.cpp b/src/config_file.cpp
index 4deec88..7949d46 100644
--- a/src/config_file.cpp
+++ b/src/config_file.cpp
@@ -52,7 +52,7 @@ namespace boost { namespace program_options { namespace detail {
                 if (i->find(s) == 0)
                     bad_prefixes = true;                    
             }
-            if (i != allowed_prefixes.begin()) {
+            if (!bad_prefixes && i != allowed_prefixes.begin()) {
                 --i;
                 if (s.find(*i) == 0)
                     bad_prefixes = true;
-- 
2.43.0


From cf4595c595a5cada6ee323306e4a7d1adedf724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:05 +0000
Subject: [PATCH 15/15] fix: an invalid boolean was reported in lower case
 instead of as it was given

'--b=MayBe' for a bool option gave "the argument ('maybe') ...": the error was built from
the text folded for the comparison. Narrow and wide alike.
---
 src/value_semantic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/value_semantic.cpp b/src/value_semantic.cpp
index 4292c13..2dc8a7d 100644
--- a/src/value_semantic.cpp
+++ b/src/value_semantic.cpp
@@ -159,7 +159,7 @@ namespace boost { namespace program_options {
         else if (s == "off" || s == "no" || s == "0" || s == "false")
             v = any(false);
         else
-            boost::throw_exception(invalid_bool_value(s));
+            boost::throw_exception(invalid_bool_value(get_single_string(xs, true)));
     }
 
     // This is blatant copy-paste. However, templating this will cause a problem,
@@ -181,7 +181,7 @@ namespace boost { namespace program_options {
         else if (s == L"off" || s == L"no" || s == L"0" || s == L"false")
             v = any(false);
         else
-            boost::throw_exception(invalid_bool_value(convert_value(s)));
+            boost::throw_exception(invalid_bool_value(convert_value(get_single_string(xs, true))));
     }
 #endif
     BOOST_PROGRAM_OPTIONS_DECL 
-- 
2.43.0

