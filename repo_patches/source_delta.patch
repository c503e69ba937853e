From 78bd0b810cc933e4166c962a419ffc2c91dc45ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 01/34] fix: do not wait forever for a task that could not be
 executed

When a task throws (for example because its recipe cannot be launched) its result
stayed pending, so tasks that depend on it never became ready, and never failed.
---
 core/db/task_list.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/db/task_list.cpp b/core/db/task_list.cpp
index b53f714..f9a58e5 100644
--- a/core/db/task_list.cpp
+++ b/core/db/task_list.cpp
@@ -95,7 +95,20 @@ size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
 				                 task_results = m_results.get(),
 				                 at_exit = ScopeExitHandler{[&e]() { e.set(); }}]() mutable {
 					auto const index = task.node().id().value();
-					if(auto result = task.runIfNecessary(force_recompilation, invoker); result)
+					auto run_task = [&task, force_recompilation, &invoker, &task_result = task_results[index]]() {
+						try
+						{
+							return task.runIfNecessary(force_recompilation, invoker);
+						}
+						catch(...)
+						{
+							// Without a result, dependent tasks would stay pending, and process would
+							// wait forever
+							task_result = TaskResult::Failure;
+							throw;
+						}
+					};
+					if(auto result = run_task(); result)
 					{
 						auto const build_failed = failed(*result);
 						compilation_log.write(task, *result);
-- 
2.43.0


From 7a0744e46b2b2d10e2c5047c92772a84a8f2dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 02/34] fix: advance the read position when reading recipe
 output

The start of the output from configure and get_tags was returned over and over again,
so output larger than one buffer was corrupted, and blank output was never ended.
---
 core/db/compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/db/compiler.cpp b/core/db/compiler.cpp
index 7aa9e8f..fe3c618 100644
--- a/core/db/compiler.cpp
+++ b/core/db/compiler.cpp
@@ -47,6 +47,7 @@ namespace
 		auto const bytes_left = std::size(reader.buffer.get()) - reader.read_offset;
 		auto const bytes_to_read = std::min(n, bytes_left);
 		memcpy(output, reader.buffer.get().data() + reader.read_offset, bytes_to_read);
+		reader.read_offset += bytes_to_read;
 
 		return bytes_to_read;
 	}
-- 
2.43.0


From 6f5195c62f355a977f266097f5f0dff7bc41e39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:53 +0000
Subject: [PATCH 03/34] fix: quote printed commands so that a shell gives back
 the same arguments

A backslash does not escape anything within single quotes.
---
 core/exec/command.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/exec/command.cpp b/core/exec/command.cpp
index bf14826..f72f363 100644
--- a/core/exec/command.cpp
+++ b/core/exec/command.cpp
@@ -12,8 +12,13 @@ namespace
 	{
 		std::string ret{"'"};
 		std::for_each(std::begin(str), std::end(str), [&ret](auto ch_in) {
-			if(ch_in == '\\' || ch_in == '\'') { ret += '\\'; }
-			ret += ch_in;
+			// There are no escape sequences within single quotes. Thus, a single quote has to be put
+			// outside of the quoted string.
+			if(ch_in == '\'') { ret += "'\\''"; }
+			else
+			{
+				ret += ch_in;
+			}
 		});
 		ret += "'";
 
-- 
2.43.0


From 7be6ee18fbf25631ffb2ae1b1576fa7e02462e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 04/34] fix: let a child process see the end of its standard
 input

The write end of the pipe was kept open until the child had terminated, and the pipes
leaked to children started by other threads, so a recipe that reads its standard input
to the end never terminated.
---
 core/exec/execve.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index a634dd4..2c90557 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -27,7 +27,8 @@ namespace
 		Pipe()
 		{
 			int fds[2];
-			if(pipe(fds) == -1) { throw "Failed to create pipe"; }
+			// Other threads may fork at any time. Do not let their children inherit these.
+			if(pipe2(fds, O_CLOEXEC) == -1) { throw "Failed to create pipe"; }
 			m_read_end = fds[0];
 			m_write_end = fds[1];
 		}
@@ -132,12 +133,13 @@ namespace
 
 
 	Maike::Exec::ExitStatus communicateWith(
-	   pid_t pid, Maike::Io::Redirector const& io_redirector, int stdin, int stdout, int stderr)
+	   pid_t pid, Maike::Io::Redirector const& io_redirector, Pipe& stdin, int stdout, int stderr)
 	{
 		signal(SIGPIPE, SIG_IGN);
 		std::thread stderr_proc{read, io_redirector.handle(), stderr, io_redirector.stderr()};
 		std::thread stdout_proc{read, io_redirector.handle(), stdout, io_redirector.stdout()};
-		write(io_redirector.handle(), stdin, io_redirector.stdin());
+		write(io_redirector.handle(), stdin.writeEnd(), io_redirector.stdin());
+		stdin.closeWriteEnd(); // The child may wait for end of file
 
 		int status;
 		if(::waitpid(pid, &status, 0) == -1) { abort(); }
@@ -224,7 +226,7 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	stdout.closeWriteEnd();
 	stderr.closeWriteEnd();
 
-	return communicateWith(pid, io_redirector, stdin.writeEnd(), stdout.readEnd(), stderr.readEnd());
+	return communicateWith(pid, io_redirector, stdin, stdout.readEnd(), stderr.readEnd());
 }
 
 namespace
-- 
2.43.0


From f5d7cb793efca6bef6b69c8604605e9e6de424ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:09 +0000
Subject: [PATCH 05/34] fix: report truncated JSON documents

The last characters before end of file were dropped when they did not end with a space
or a closing bracket. A truncated document without any of these was taken as an empty one.
---
 core/key_value_store/json_handle.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/key_value_store/json_handle.cpp b/core/key_value_store/json_handle.cpp
index eaf5906..186f12f 100644
--- a/core/key_value_store/json_handle.cpp
+++ b/core/key_value_store/json_handle.cpp
@@ -31,7 +31,7 @@ namespace
 	class ReadHelper
 	{
 	public:
-		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}
+		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}, m_eof{false}
 		{
 		}
 
@@ -39,10 +39,14 @@ namespace
 		{
 			size_t n_written = 0;
 			auto const buffer_init = buffer;
-			while(n_written != n)
+			while(n_written != n && !m_eof)
 			{
 				auto ch_in = m_buffer.getchar();
-				if(ch_in == -1) { return 0; }
+				if(ch_in == -1)
+				{
+					m_eof = true;
+					break;
+				}
 
 				*buffer = static_cast<std::byte>(ch_in);
 				++buffer;
@@ -64,6 +68,7 @@ namespace
 	private:
 		Maike::Io::InputBuffer<Maike::Io::Reader> m_buffer;
 		bool m_has_data;
+		bool m_eof;
 	};
 }
 
-- 
2.43.0


From fee1022078ced15e5700028b18db9d98448ae21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:59 +0000
Subject: [PATCH 06/34] fix: find the end of comments in C++ sources

A block comment that ends with an even number of asterisks was not terminated, and a
slash followed by an asterisk within a line comment was taken as the start of a block
comment. In both cases, remaining include directives and tags were ignored.
---
 .../cxx/source_file_loader.cpp                | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 5a8dfee..1c0a555 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -30,6 +30,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	{
 		Newline,
 		CommentFirst,
+		LineComment,
 		SkipLine,
 		CommentBlock,
 		CommentBlockPreEnd,
@@ -82,12 +83,17 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '*': state = State::CommentBlock; break;
+					case '/': state = State::LineComment; break;
 					case '\n': state = State::Newline; break;
 
 					default: state = State::SkipLine;
 				}
 				break;
 
+			case State::LineComment:
+				if(ch_in == '\n') { state = State::Newline; }
+				break;
+
 			case State::SkipLine:
 				switch(ch_in)
 				{
@@ -113,6 +119,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '/': state = State::SkipLine; break;
+					case '*': break;
 					case '\n': state = State::CommentBlock; break;
 					default: state = State::CommentBlock; break;
 				}
@@ -255,6 +262,7 @@ void Cxx::SourceFileLoader::filterInput(
 		CommentFirst,
 		TagSymbol,
 		Tag,
+		LineComment,
 		SkipLine,
 		CommentBlock,
 		CommentBlockPreEnd,
@@ -329,7 +337,7 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
-					default: state = State::SkipLine; break;
+					default: state = State::LineComment; break;
 				}
 				break;
 
@@ -338,6 +346,14 @@ void Cxx::SourceFileLoader::filterInput(
 				tags.putchar(static_cast<std::byte>(ch_in));
 				break;
 
+			case State::LineComment:
+				if(ch_in == '\n')
+				{
+					state = State::Newline;
+					tags.putchar('\n');
+				}
+				break;
+
 			case State::SkipLine:
 				switch(ch_in)
 				{
@@ -367,6 +383,7 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '/': state = State::SkipLine; break;
+					case '*': break;
 					case '\n':
 						state = State::CommentBlock;
 						tags.putchar('\n');
@@ -379,6 +396,7 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '*': state = State::CommentBlock; break;
+					case '/': state = State::LineComment; break;
 					case '\n':
 						state = State::Newline;
 						tags.putchar('\n');
-- 
2.43.0


From f923b5ff3351135845bf3124dcb00135bdca1017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:59 +0000
Subject: [PATCH 07/34] fix: find the end of raw strings in C++ sources

A right parenthesis before the end mark, or a newline after a right parenthesis, made the
scanner miss the end of the string, so remaining include directives and tags were ignored.
---
 .../cxx/source_file_loader.cpp                         | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 1c0a555..2a54942 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -158,7 +158,12 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						raw_string_end_mark.clear();
 						break;
 
-					case '\n': state = State::RawString; break;
+					case ')': raw_string_end_mark.clear(); break;
+
+					case '\n':
+						state = State::RawString;
+						raw_string_end_mark.clear();
+						break;
 
 					default: raw_string_end_mark += ch_in;
 				}
@@ -445,8 +450,11 @@ void Cxx::SourceFileLoader::filterInput(
 						raw_string_end_mark.clear();
 						break;
 
+					case ')': raw_string_end_mark.clear(); break;
+
 					case '\n':
 						state = State::RawString;
+						raw_string_end_mark.clear();
 						tags.putchar('\n');
 						break;
 
-- 
2.43.0


From 24f1c2268f3687ee701fa6d7541cfbb93ba3d1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:59 +0000
Subject: [PATCH 08/34] fix: end preprocessor directives at end of line, and
 only look for paths in include

The line after a directive without arguments, such as #endif, was ignored even if it was an
include directive. The argument of other directives, such as #error, was taken as an include
path, and an unterminated include path was prepended to the next one.
---
 .../cxx/source_file_loader.cpp                  | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 2a54942..18b37e7 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -170,7 +170,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				break;
 
 			case State::PrePreprocessorDirective:
-				if(!(ch_in >= '\0' && ch_in <= ' '))
+				if(ch_in == '\n') { state = State::Newline; }
+				else if(!(ch_in >= '\0' && ch_in <= ' '))
 				{
 					preproc_directive += ch_in;
 					state = State::PreprocessorDirective;
@@ -180,11 +181,15 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::PreprocessorDirective:
 				switch(ch_in)
 				{
+					case '\n': state = State::Newline; break;
+
 					case '<':
 						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
+						include_path.clear();
 						break;
 					case '"':
 						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
+						include_path.clear();
 						break;
 					default:
 						if(ch_in >= '\0' && ch_in <= ' ') { state = State::PreprocessorDirectivePreArg; }
@@ -201,9 +206,15 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '\n': state = State::Newline; break;
 
-					case '"': state = State::IncludeProject; break;
+					case '"':
+						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
+						include_path.clear();
+						break;
 
-					case '<': state = State::IncludeSystem; break;
+					case '<':
+						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
+						include_path.clear();
+						break;
 
 					default:
 						if(!(ch_in >= '\0' && ch_in <= ' '))
-- 
2.43.0


From efa373b8fa7d55d13ac91586c5b36a690a6f3878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:58 +0000
Subject: [PATCH 09/34] fix: ignore comment marks in string and character
 literals in C++ sources

The literal "*/*" was taken as the start of a block comment, so remaining include
directives and tags were ignored.
---
 .../cxx/source_file_loader.cpp                | 97 +++++++++++++++++--
 1 file changed, 90 insertions(+), 7 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 18b37e7..370cf90 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -7,6 +7,8 @@
 #include "core/io/input_buffer.hpp"
 #include "core/io/output_buffer.hpp"
 
+#include <cctype>
+
 namespace
 {
 	auto get_origin(std::vector<std::regex> const& gen_includes , std::filesystem::path const& include_path)
@@ -19,6 +21,12 @@ namespace
 		}
 		return Maike::Db::SourceFileOrigin::Project;
 	}
+
+	// A single quote within a number is a digit separator
+	bool beginsLiteral(int ch_in, int ch_prev)
+	{
+		return ch_in == '"' || (ch_in == '\'' && !isalnum(ch_prev));
+	}
 }
 
 std::vector<Maike::Db::Dependency>
@@ -38,6 +46,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 		RawStringTag,
 		RawString,
 		RawStringPreEnd,
+		Literal,
+		LiteralEscape,
 		PrePreprocessorDirective,
 		PreprocessorDirective,
 		PreprocessorDirectivePreArg,
@@ -49,10 +59,14 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	std::string raw_string_end_mark;
 	std::string preproc_directive;
 	std::string include_path;
+	int literal_end = '"';
+	int ch_prev = '\n';
+	int ch_in = '\n';
 
 	while(true)
 	{
-		auto ch_in = input_buff.getchar();
+		ch_prev = ch_in;
+		ch_in = input_buff.getchar();
 		if(ch_in == -1) { return deps; }
 
 		switch(state)
@@ -74,7 +88,15 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						break;
 
 					default:
-						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = State::SkipLine; }
+						if(beginsLiteral(ch_in, ch_prev))
+						{
+							state = State::Literal;
+							literal_end = ch_in;
+						}
+						else if(!(ch_in >= '\0' && ch_in <= ' '))
+						{
+							state = State::SkipLine;
+						}
 						break;
 				}
 				break;
@@ -104,10 +126,30 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						state = State::RawStringBegin;
 						break;
 					case '/': state = State::CommentFirst; break;
-					default: break;
+					default:
+						if(beginsLiteral(ch_in, ch_prev))
+						{
+							state = State::Literal;
+							literal_end = ch_in;
+						}
+						break;
 				}
 				break;
 
+			case State::Literal:
+				if(ch_in == '\n') { state = State::Newline; }
+				else if(ch_in == '\\')
+				{
+					state = State::LiteralEscape;
+				}
+				else if(ch_in == literal_end)
+				{
+					state = State::SkipLine;
+				}
+				break;
+
+			case State::LiteralEscape: state = State::Literal; break;
+
 			case State::CommentBlock:
 				switch(ch_in)
 				{
@@ -286,14 +328,20 @@ void Cxx::SourceFileLoader::filterInput(
 		RawStringBegin,
 		RawStringTag,
 		RawString,
-		RawStringPreEnd
+		RawStringPreEnd,
+		Literal,
+		LiteralEscape
 	};
 	auto state = State::Newline;
 	std::string raw_string_tag;
 	std::string raw_string_end_mark;
+	int literal_end = '"';
+	int ch_prev = '\n';
+	int ch_in = '\n';
 	while(true)
 	{
-		auto ch_in = input_buff.getchar();
+		ch_prev = ch_in;
+		ch_in = input_buff.getchar();
 		if(ch_in == -1) { return; }
 
 		// For simplicity, copy raw stream to source output
@@ -316,7 +364,15 @@ void Cxx::SourceFileLoader::filterInput(
 						break;
 
 					default:
-						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = State::SkipLine; }
+						if(beginsLiteral(ch_in, ch_prev))
+						{
+							state = State::Literal;
+							literal_end = ch_in;
+						}
+						else if(!(ch_in >= '\0' && ch_in <= ' '))
+						{
+							state = State::SkipLine;
+						}
 						else
 						{
 							tags.putchar(ch_in);
@@ -383,8 +439,35 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::RawStringBegin;
 						break;
 					case '/': state = State::CommentFirstSkipLine; break;
-					default: break;
+					default:
+						if(beginsLiteral(ch_in, ch_prev))
+						{
+							state = State::Literal;
+							literal_end = ch_in;
+						}
+						break;
+				}
+				break;
+
+			case State::Literal:
+				if(ch_in == '\n')
+				{
+					state = State::Newline;
+					tags.putchar('\n');
 				}
+				else if(ch_in == '\\')
+				{
+					state = State::LiteralEscape;
+				}
+				else if(ch_in == literal_end)
+				{
+					state = State::SkipLine;
+				}
+				break;
+
+			case State::LiteralEscape:
+				state = State::Literal;
+				if(ch_in == '\n') { tags.putchar('\n'); }
 				break;
 
 			case State::CommentBlock:
-- 
2.43.0


From 257f6dcd222efdc2164b36cc30ad828cc5336b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:58 +0000
Subject: [PATCH 10/34] fix: accept comments and raw strings next to other
 tokens in C++ sources

A comment after a preprocessor directive or next to an identifier that ends with R was
not recognized, and neither was a raw string after a slash. An include directive after
a block comment on the same line was ignored.
---
 .../cxx/source_file_loader.cpp                | 99 +++++++++++++++++--
 1 file changed, 91 insertions(+), 8 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 370cf90..c45f309 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -55,6 +55,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 		IncludeSystem
 	};
 	auto state = State::Newline;
+	// A block comment is the same thing as white space
+	auto state_after_comment = State::SkipLine;
 	std::string raw_string_tag;
 	std::string raw_string_end_mark;
 	std::string preproc_directive;
@@ -74,7 +76,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::Newline:
 				switch(ch_in)
 				{
-					case '/': state = State::CommentFirst; break;
+					case '/':
+						state = State::CommentFirst;
+						state_after_comment = State::Newline;
+						break;
 
 					case 'R':
 						state = State::RawStringBegin;
@@ -107,8 +112,23 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 					case '*': state = State::CommentBlock; break;
 					case '/': state = State::LineComment; break;
 					case '\n': state = State::Newline; break;
+					case 'R':
+						raw_string_tag.clear();
+						raw_string_end_mark.clear();
+						state = State::RawStringBegin;
+						break;
 
-					default: state = State::SkipLine;
+					default:
+						if(beginsLiteral(ch_in, ch_prev))
+						{
+							state = State::Literal;
+							literal_end = ch_in;
+						}
+						else
+						{
+							state = State::SkipLine;
+						}
+						break;
 				}
 				break;
 
@@ -125,7 +145,10 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						raw_string_end_mark.clear();
 						state = State::RawStringBegin;
 						break;
-					case '/': state = State::CommentFirst; break;
+					case '/':
+						state = State::CommentFirst;
+						state_after_comment = State::SkipLine;
+						break;
 					default:
 						if(beginsLiteral(ch_in, ch_prev))
 						{
@@ -160,7 +183,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::CommentBlockPreEnd:
 				switch(ch_in)
 				{
-					case '/': state = State::SkipLine; break;
+					case '/': state = state_after_comment; break;
 					case '*': break;
 					case '\n': state = State::CommentBlock; break;
 					default: state = State::CommentBlock; break;
@@ -172,6 +195,11 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				{
 					case '"': state = State::RawStringTag; break;
 					case '\n': state = State::Newline; break;
+					case 'R': break;
+					case '/':
+						state = State::CommentFirst;
+						state_after_comment = State::SkipLine;
+						break;
 					default: state = State::SkipLine;
 				}
 				break;
@@ -213,6 +241,11 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 
 			case State::PrePreprocessorDirective:
 				if(ch_in == '\n') { state = State::Newline; }
+				else if(ch_in == '/')
+				{
+					state = State::CommentFirst;
+					state_after_comment = State::PrePreprocessorDirective;
+				}
 				else if(!(ch_in >= '\0' && ch_in <= ' '))
 				{
 					preproc_directive += ch_in;
@@ -230,9 +263,14 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						include_path.clear();
 						break;
 					case '"':
-						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
+						state = preproc_directive == "include" ? State::IncludeProject : State::Literal;
+						literal_end = ch_in;
 						include_path.clear();
 						break;
+					case '/':
+						state = State::CommentFirst;
+						state_after_comment = State::PreprocessorDirectivePreArg;
+						break;
 					default:
 						if(ch_in >= '\0' && ch_in <= ' ') { state = State::PreprocessorDirectivePreArg; }
 						else
@@ -249,10 +287,22 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 					case '\n': state = State::Newline; break;
 
 					case '"':
-						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
+						state = preproc_directive == "include" ? State::IncludeProject : State::Literal;
+						literal_end = ch_in;
 						include_path.clear();
 						break;
 
+					case '/':
+						state = State::CommentFirst;
+						state_after_comment = State::PreprocessorDirectivePreArg;
+						break;
+
+					case 'R':
+						raw_string_tag.clear();
+						raw_string_end_mark.clear();
+						state = State::RawStringBegin;
+						break;
+
 					case '<':
 						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
 						include_path.clear();
@@ -394,7 +444,23 @@ void Cxx::SourceFileLoader::filterInput(
 						tags.putchar('\n');
 						break;
 
-					default: state = State::SkipLine;
+					case 'R':
+						raw_string_tag.clear();
+						raw_string_end_mark.clear();
+						state = State::RawStringBegin;
+						break;
+
+					default:
+						if(beginsLiteral(ch_in, ch_prev))
+						{
+							state = State::Literal;
+							literal_end = ch_in;
+						}
+						else
+						{
+							state = State::SkipLine;
+						}
+						break;
 				}
 				break;
 
@@ -500,7 +566,22 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
-					default: state = State::SkipLine;
+					case 'R':
+						raw_string_tag.clear();
+						raw_string_end_mark.clear();
+						state = State::RawStringBegin;
+						break;
+					default:
+						if(beginsLiteral(ch_in, ch_prev))
+						{
+							state = State::Literal;
+							literal_end = ch_in;
+						}
+						else
+						{
+							state = State::SkipLine;
+						}
+						break;
 				}
 				break;
 
@@ -512,6 +593,8 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
+					case 'R': break;
+					case '/': state = State::CommentFirstSkipLine; break;
 					default: state = State::SkipLine;
 				}
 				break;
-- 
2.43.0


From a0076f7bc938e1652015d5b73fefe74b547be1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 11/34] fix: do not take the targets of a failed recipe as up
 to date

A recipe may write its targets before it fails, for example when it runs a test it
has just linked. The next build then took the target as up to date, and succeeded.
---
 core/db/source_file_record.cpp | 13 +++++++++++++
 core/db/source_file_record.hpp |  1 +
 core/db/task_list.cpp          |  1 +
 3 files changed, 15 insertions(+)

diff --git a/core/db/source_file_record.cpp b/core/db/source_file_record.cpp
index 403b51f..f89cdd3 100644
--- a/core/db/source_file_record.cpp
+++ b/core/db/source_file_record.cpp
@@ -17,6 +17,19 @@ bool Maike::Db::isUpToDate(SourceFileRecordConst const& rec, std::vector<Depende
 	   });
 }
 
+void Maike::Db::markTargetsOutOfDate(SourceFileRecordConst const& rec)
+{
+	auto const& targets = rec.sourceFileInfo().targets();
+	std::for_each(std::begin(targets), std::end(targets), [&src_file = rec.path()](auto const& item) {
+		std::error_code ec{};
+		if(!is_regular_file(item.name(), ec)) { return; }
+
+		// A target is up-to-date only if it is newer than its source file
+		auto const t = last_write_time(src_file, ec);
+		if(!ec) { last_write_time(item.name(), t, ec); }
+	});
+}
+
 namespace
 {
 	struct CmdOptsString
diff --git a/core/db/source_file_record.hpp b/core/db/source_file_record.hpp
index 223ae68..28b5701 100644
--- a/core/db/source_file_record.hpp
+++ b/core/db/source_file_record.hpp
@@ -87,6 +87,7 @@ namespace Maike::Db
 
 	bool isUpToDate(SourceFileRecordConst const& rec, std::vector<Dependency> const& deps);
 
+	void markTargetsOutOfDate(SourceFileRecordConst const& rec);
 
 	Exec::Command makeBuildCommand(SourceFileRecordConst const& rec,
 	                               Build::Info const&,
diff --git a/core/db/task_list.cpp b/core/db/task_list.cpp
index f9a58e5..0cfb698 100644
--- a/core/db/task_list.cpp
+++ b/core/db/task_list.cpp
@@ -116,6 +116,7 @@ size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
 						{
 							std::string msg{task.node().path()};
 							msg += ": Compilation failed";
+							markTargetsOutOfDate(task.node());
 							task_results[index] = TaskResult::Failure;
 							throw std::runtime_error{std::move(msg)};
 						}
-- 
2.43.0


From 90da836ef8053dbb9d9aca14304e2eadcf62c020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 12/34] fix: accept any spelling of the source directory,
 target directory, and targets

With --source-dir=./foo the input filters were applied to ../foo/bar, with a trailing
slash the source directory could not be resolved, and with --target-dir=./bar no target
could be found.
---
 core/bin/maike.cpp      | 11 +++++++++--
 core/db/source_tree.cpp |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index 1bac001..0a0e054 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -20,6 +20,13 @@
 
 #include <set>
 
+// Different ways of writing the same path must give the same result
+Maike::fs::path normalizeDirectory(Maike::fs::path const& dir)
+{
+	auto ret = dir.lexically_normal();
+	return ret.has_filename() ? ret : ret.parent_path();
+}
+
 Maike::Build::Info makeBuildInfo(Maike::CommandLine const& cmdline)
 {
 	Maike::Build::Info ret;
@@ -31,10 +38,10 @@ Maike::Build::Info makeBuildInfo(Maike::CommandLine const& cmdline)
 	{ ret.buildId(Maike::Build::Id{cmdline.option<Maike::CmdLineOption::BuildId>()}); }
 
 	if(cmdline.hasOption<Maike::CmdLineOption::SourceDir>())
-	{ ret.sourceDir(Maike::fs::path{cmdline.option<Maike::CmdLineOption::SourceDir>()}); }
+	{ ret.sourceDir(normalizeDirectory(cmdline.option<Maike::CmdLineOption::SourceDir>())); }
 
 	if(cmdline.hasOption<Maike::CmdLineOption::TargetDir>())
-	{ ret.targetDir(Maike::fs::path{cmdline.option<Maike::CmdLineOption::TargetDir>()}); }
+	{ ret.targetDir(normalizeDirectory(cmdline.option<Maike::CmdLineOption::TargetDir>())); }
 	else
 	{
 		if(ret.sourceDir().filename() != ".")
diff --git a/core/db/source_tree.cpp b/core/db/source_tree.cpp
index befd619..647e87c 100644
--- a/core/db/source_tree.cpp
+++ b/core/db/source_tree.cpp
@@ -16,7 +16,7 @@ Maike::Db::Target const& Maike::Db::getTarget(SourceTree const& src_tree,
                                               fs::path const& target_name)
 {
 	auto const& targets = src_tree.targets();
-	auto i = targets.find(src_tree.targetDirectory() / target_name);
+	auto i = targets.find((src_tree.targetDirectory() / target_name).lexically_normal());
 	if(i == std::end(targets))
 	{
 		std::string msg{"Unkonwn target `"};
-- 
2.43.0


From 787ffe52beefc81c8fdca4a697d0a30c418832b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:31 +0000
Subject: [PATCH 13/34] fix: depend on the default recipe when a source file
 only changes its config

With a compiler tag that has no recipe, the recipe of the loader is used, but
a change of that recipe did not cause a rebuild.
---
 core/source_tree_loader/source_file_load_ctxt.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/source_tree_loader/source_file_load_ctxt.cpp b/core/source_tree_loader/source_file_load_ctxt.cpp
index e0006e6..a7f3558 100644
--- a/core/source_tree_loader/source_file_load_ctxt.cpp
+++ b/core/source_tree_loader/source_file_load_ctxt.cpp
@@ -208,7 +208,7 @@ Maike::SourceTreeLoader::loadSourceFile(SourceFileLoadContext const& load_ctxt,
 	auto compiler = tags.getIf<Db::Compiler>("compiler");
 	if(compiler) { compiler->resolveRecipe(commands); }
 
-	[&targets, &builtin_deps, &child_target_use_deps](
+	[&targets, &builtin_deps, &child_target_use_deps, &default_compiler = loader.compiler()](
 	   SourceTreeLoader::SourceFileLoadContext const& load_ctxt,
 	   Db::Compiler const& compiler,
 	   fs::path const& src_file) {
@@ -223,6 +223,10 @@ Maike::SourceTreeLoader::loadSourceFile(SourceFileLoadContext const& load_ctxt,
 			std::copy(std::begin(ctu_deps), std::end(ctu_deps), std::back_inserter(child_target_use_deps));
 		}
 		if(compiler.recipe() != "") { builtin_deps.push_back(makeDependency(compiler)); }
+		else if(default_compiler.recipe() != "")
+		{
+			builtin_deps.push_back(makeDependency(default_compiler));
+		}
 	}(load_ctxt, compiler ? (*compiler) : loader.compiler(), src_path);
 
 	auto const rebuild_policy = [](auto const& tags) {
-- 
2.43.0


From 4b9e385fcb890f55e4fd915ea6422100d2fe40f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:19 +0000
Subject: [PATCH 14/34] fix: start every entry of the compilation log on a line
 of its own

The output of a recipe that did not end its last line was followed by the
next entry on the same line.
---
 core/db/compilation_log.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/db/compilation_log.cpp b/core/db/compilation_log.cpp
index 6708e9f..2eec4b1 100644
--- a/core/db/compilation_log.cpp
+++ b/core/db/compilation_log.cpp
@@ -38,6 +38,9 @@ namespace
 			output += ch_in;
 			newline = (ch_in == '\n');
 		});
+
+		// The next entry has to start on a line of its own
+		if(std::size(data) != 0 && data.back() != std::byte{'\n'}) { output += '\n'; }
 	}
 }
 
-- 
2.43.0


From 59d159bf2f70e409363026e3a7a0583b7d76fbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:09 +0000
Subject: [PATCH 15/34] fix: build several selected targets as one list of
 tasks

---
 core/db/source_tree.cpp | 32 ++++++++++++++++---------------
 core/db/task_list.cpp   | 42 +++++++++++++++++++++++------------------
 core/db/task_list.hpp   |  4 +++-
 3 files changed, 44 insertions(+), 34 deletions(-)

diff --git a/core/db/source_tree.cpp b/core/db/source_tree.cpp
index 647e87c..4ee876e 100644
--- a/core/db/source_tree.cpp
+++ b/core/db/source_tree.cpp
@@ -47,10 +47,13 @@ Maike::Db::TaskCounter Maike::Db::compile(SourceTree const& src_tree,
                                           Sched::ThreadPool& workers,
                                           fs::path const& target_name)
 {
-	auto const& target = getTarget(src_tree, target_name);
-	return TaskCounter{
-	   TaskList{src_tree.dependencyGraph(), build_info, compilation_log, target}.process(
-	      workers, invoker, force_recompilation)};
+	return compile(src_tree,
+	               build_info,
+	               invoker,
+	               compilation_log,
+	               force_recompilation,
+	               workers,
+	               std::vector<fs::path>{target_name});
 }
 
 Maike::Db::TaskCounter Maike::Db::compile(SourceTree const& src_tree,
@@ -59,17 +62,16 @@ Maike::Db::TaskCounter Maike::Db::compile(SourceTree const& src_tree,
                                           CompilationLog& compilation_log,
                                           Task::ForceRecompilation force_recompilation,
                                           Sched::ThreadPool& workers,
-                                          std::vector<fs::path> const& targets)
+                                          std::vector<fs::path> const& target_names)
 {
-	TaskCounter n{0};
-	std::for_each(
-	   std::begin(targets),
-	   std::end(targets),
-	   [&n, &src_tree, &build_info, invoker, &compilation_log, force_recompilation, &workers](
-	      auto const& target_name) {
-		   n += compile(
-		      src_tree, build_info, invoker, compilation_log, force_recompilation, workers, target_name);
-	   });
+	std::vector<std::reference_wrapper<Target const>> targets;
+	targets.reserve(std::size(target_names));
+	std::transform(std::begin(target_names),
+	               std::end(target_names),
+	               std::back_inserter(targets),
+	               [&src_tree](auto const& name) { return std::cref(getTarget(src_tree, name)); });
 
-	return n;
+	return TaskCounter{
+	   TaskList{src_tree.dependencyGraph(), build_info, compilation_log, targets}.process(
+	      workers, invoker, force_recompilation)};
 }
\ No newline at end of file
diff --git a/core/db/task_list.cpp b/core/db/task_list.cpp
index 0cfb698..231d007 100644
--- a/core/db/task_list.cpp
+++ b/core/db/task_list.cpp
@@ -33,27 +33,33 @@ Maike::Db::TaskList::TaskList(DependencyGraph const& graph,
 Maike::Db::TaskList::TaskList(DependencyGraph const& graph,
                               Build::Info const& build_info,
                               CompilationLog& compilation_log,
-                              Target const& target):
+                              std::vector<std::reference_wrapper<Target const>> const& targets):
    m_results{std::make_unique<std::atomic<TaskResult>[]>(Db::size(graph))},
    m_compilation_log{compilation_log}
 {
-	auto const& node = getNode(graph, target.sourceFilename());
-	processGraphNodeRecursive(
-	   [&graph,
-	    &build_info,
-	    log_format = m_compilation_log.get().outputFormat(),
-	    task_results = m_results.get(),
-	    &tasks = m_tasks](SourceFileRecordConst const& node, auto const&...) {
-		   if(std::size(node.sourceFileInfo().targets()) == 0)
-		   {
-			   task_results[node.id().value()] = TaskResult::Success;
-			   return;
-		   }
-		   task_results[node.id().value()] = TaskResult::Pending;
-		   tasks.push_back(Task{graph, node, build_info, log_format});
-	   },
-	   graph,
-	   node);
+	// Targets may have dependencies in common. Make sure that there is only one task for these.
+	std::vector<bool> visited(Db::size(graph));
+	auto add_task = [&graph,
+	                 &build_info,
+	                 log_format = m_compilation_log.get().outputFormat(),
+	                 task_results = m_results.get(),
+	                 &tasks = m_tasks,
+	                 &visited](SourceFileRecordConst const& node, auto const&...) {
+		if(visited[node.id().value()]) { return; }
+		visited[node.id().value()] = true;
+		if(std::size(node.sourceFileInfo().targets()) == 0)
+		{
+			task_results[node.id().value()] = TaskResult::Success;
+			return;
+		}
+		task_results[node.id().value()] = TaskResult::Pending;
+		tasks.push_back(Task{graph, node, build_info, log_format});
+	};
+
+	std::for_each(
+	   std::begin(targets), std::end(targets), [&graph, &add_task](Target const& target) {
+		   processGraphNodeRecursive(add_task, graph, getNode(graph, target.sourceFilename()));
+	   });
 }
 
 size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
diff --git a/core/db/task_list.hpp b/core/db/task_list.hpp
index 2776b50..5bc915c 100644
--- a/core/db/task_list.hpp
+++ b/core/db/task_list.hpp
@@ -13,8 +13,10 @@
 #include "core/sched/thread_pool.hpp"
 
 #include <atomic>
+#include <functional>
 #include <list>
 #include <memory>
+#include <vector>
 
 namespace Maike::Db
 {
@@ -28,7 +30,7 @@ namespace Maike::Db
 		explicit TaskList(DependencyGraph const& graph,
 		                  Build::Info const& build_info,
 		                  CompilationLog& compilation_log,
-		                  Target const& target);
+		                  std::vector<std::reference_wrapper<Target const>> const& targets);
 
 		size_t process(Sched::ThreadPool& workers,
 		               Invoker invoker,
-- 
2.43.0


From 42dace148f606efa2026040f4b4cd2225f167c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:34 +0000
Subject: [PATCH 16/34] fix: tell raw string prefixes and digit separators from
 identifiers in C++ sources

---
 .../cxx/source_file_loader.cpp                | 131 ++++++++++--------
 1 file changed, 77 insertions(+), 54 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index c45f309..0b918b9 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -22,10 +22,36 @@ namespace
 		return Maike::Db::SourceFileOrigin::Project;
 	}
 
+	bool isNumber(std::string const& word)
+	{
+		return !word.empty() && isdigit(word.front());
+	}
+
+	bool isWordChar(int ch_in)
+	{
+		return isalnum(ch_in) || ch_in == '_';
+	}
+
+	// Keeps track of the identifier or number, that ends with the most recent character
+	void updateWord(std::string& word, int ch_in)
+	{
+		if(isWordChar(ch_in) || (ch_in == '\'' && isNumber(word))) { word += static_cast<char>(ch_in); }
+		else
+		{
+			word.clear();
+		}
+	}
+
 	// A single quote within a number is a digit separator
-	bool beginsLiteral(int ch_in, int ch_prev)
+	bool beginsLiteral(int ch_in, std::string const& word)
+	{
+		return ch_in == '"' || (ch_in == '\'' && !isNumber(word));
+	}
+
+	// An identifier that happens to end with R is not a raw string prefix
+	bool isRawStringPrefix(std::string const& word)
 	{
-		return ch_in == '"' || (ch_in == '\'' && !isalnum(ch_prev));
+		return word == "R" || word == "LR" || word == "uR" || word == "UR" || word == "u8R";
 	}
 }
 
@@ -62,12 +88,12 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	std::string preproc_directive;
 	std::string include_path;
 	int literal_end = '"';
-	int ch_prev = '\n';
+	std::string word;
 	int ch_in = '\n';
 
 	while(true)
 	{
-		ch_prev = ch_in;
+		updateWord(word, ch_in);
 		ch_in = input_buff.getchar();
 		if(ch_in == -1) { return deps; }
 
@@ -93,7 +119,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						break;
 
 					default:
-						if(beginsLiteral(ch_in, ch_prev))
+						if(beginsLiteral(ch_in, word))
 						{
 							state = State::Literal;
 							literal_end = ch_in;
@@ -119,7 +145,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						break;
 
 					default:
-						if(beginsLiteral(ch_in, ch_prev))
+						if(beginsLiteral(ch_in, word))
 						{
 							state = State::Literal;
 							literal_end = ch_in;
@@ -150,7 +176,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						state_after_comment = State::SkipLine;
 						break;
 					default:
-						if(beginsLiteral(ch_in, ch_prev))
+						if(beginsLiteral(ch_in, word))
 						{
 							state = State::Literal;
 							literal_end = ch_in;
@@ -193,13 +219,20 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::RawStringBegin:
 				switch(ch_in)
 				{
-					case '"': state = State::RawStringTag; break;
+					case '"':
+						state = isRawStringPrefix(word) ? State::RawStringTag : State::Literal;
+						literal_end = ch_in;
+						break;
 					case '\n': state = State::Newline; break;
 					case 'R': break;
 					case '/':
 						state = State::CommentFirst;
 						state_after_comment = State::SkipLine;
 						break;
+					case '\'':
+						state = State::Literal;
+						literal_end = ch_in;
+						break;
 					default: state = State::SkipLine;
 				}
 				break;
@@ -240,80 +273,63 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				break;
 
 			case State::PrePreprocessorDirective:
-				if(ch_in == '\n') { state = State::Newline; }
-				else if(ch_in == '/')
+				if(ch_in == '\n')
 				{
-					state = State::CommentFirst;
-					state_after_comment = State::PrePreprocessorDirective;
+					state = State::Newline;
+					break;
 				}
-				else if(!(ch_in >= '\0' && ch_in <= ' '))
+				if(ch_in == '/')
 				{
-					preproc_directive += ch_in;
-					state = State::PreprocessorDirective;
+					state = State::CommentFirst;
+					state_after_comment = State::PrePreprocessorDirective;
+					break;
 				}
-				break;
+				if(ch_in >= '\0' && ch_in <= ' ') { break; }
+				state = State::PreprocessorDirective;
+				[[fallthrough]];
 
 			case State::PreprocessorDirective:
-				switch(ch_in)
+				if(isWordChar(ch_in))
 				{
-					case '\n': state = State::Newline; break;
-
-					case '<':
-						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
-						include_path.clear();
-						break;
-					case '"':
-						state = preproc_directive == "include" ? State::IncludeProject : State::Literal;
-						literal_end = ch_in;
-						include_path.clear();
-						break;
-					case '/':
-						state = State::CommentFirst;
-						state_after_comment = State::PreprocessorDirectivePreArg;
-						break;
-					default:
-						if(ch_in >= '\0' && ch_in <= ' ') { state = State::PreprocessorDirectivePreArg; }
-						else
-						{
-							preproc_directive += ch_in;
-						}
-						break;
+					preproc_directive += ch_in;
+					break;
 				}
-				break;
+				state = State::PreprocessorDirectivePreArg;
+				[[fallthrough]];
 
 			case State::PreprocessorDirectivePreArg:
 				switch(ch_in)
 				{
 					case '\n': state = State::Newline; break;
-
 					case '"':
 						state = preproc_directive == "include" ? State::IncludeProject : State::Literal;
 						literal_end = ch_in;
 						include_path.clear();
 						break;
-
 					case '/':
 						state = State::CommentFirst;
 						state_after_comment = State::PreprocessorDirectivePreArg;
 						break;
-
 					case 'R':
 						raw_string_tag.clear();
 						raw_string_end_mark.clear();
 						state = State::RawStringBegin;
 						break;
-
 					case '<':
 						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
 						include_path.clear();
 						break;
-
 					default:
-						if(!(ch_in >= '\0' && ch_in <= ' '))
+						if(beginsLiteral(ch_in, word))
+						{
+							state = State::Literal;
+							literal_end = ch_in;
+						}
+						else if(!(ch_in >= '\0' && ch_in <= ' '))
 						{
 							state = State::SkipLine;
-							break;
 						}
+						break;
 				}
 				break;
 
@@ -386,11 +402,11 @@ void Cxx::SourceFileLoader::filterInput(
 	std::string raw_string_tag;
 	std::string raw_string_end_mark;
 	int literal_end = '"';
-	int ch_prev = '\n';
+	std::string word;
 	int ch_in = '\n';
 	while(true)
 	{
-		ch_prev = ch_in;
+		updateWord(word, ch_in);
 		ch_in = input_buff.getchar();
 		if(ch_in == -1) { return; }
 
@@ -414,7 +430,7 @@ void Cxx::SourceFileLoader::filterInput(
 						break;
 
 					default:
-						if(beginsLiteral(ch_in, ch_prev))
+						if(beginsLiteral(ch_in, word))
 						{
 							state = State::Literal;
 							literal_end = ch_in;
@@ -451,7 +467,7 @@ void Cxx::SourceFileLoader::filterInput(
 						break;
 
 					default:
-						if(beginsLiteral(ch_in, ch_prev))
+						if(beginsLiteral(ch_in, word))
 						{
 							state = State::Literal;
 							literal_end = ch_in;
@@ -506,7 +522,7 @@ void Cxx::SourceFileLoader::filterInput(
 						break;
 					case '/': state = State::CommentFirstSkipLine; break;
 					default:
-						if(beginsLiteral(ch_in, ch_prev))
+						if(beginsLiteral(ch_in, word))
 						{
 							state = State::Literal;
 							literal_end = ch_in;
@@ -572,7 +588,7 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::RawStringBegin;
 						break;
 					default:
-						if(beginsLiteral(ch_in, ch_prev))
+						if(beginsLiteral(ch_in, word))
 						{
 							state = State::Literal;
 							literal_end = ch_in;
@@ -588,13 +604,20 @@ void Cxx::SourceFileLoader::filterInput(
 			case State::RawStringBegin:
 				switch(ch_in)
 				{
-					case '"': state = State::RawStringTag; break;
+					case '"':
+						state = isRawStringPrefix(word) ? State::RawStringTag : State::Literal;
+						literal_end = ch_in;
+						break;
 					case '\n':
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
 					case 'R': break;
 					case '/': state = State::CommentFirstSkipLine; break;
+					case '\'':
+						state = State::Literal;
+						literal_end = ch_in;
+						break;
 					default: state = State::SkipLine;
 				}
 				break;
-- 
2.43.0


From b676235de2824dee6fb780ecc4fcd90d06f507f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:17 +0000
Subject: [PATCH 17/34] fix: name recipes in the source directory so that a
 shell finds them

---
 core/db/source_file_record.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/db/source_file_record.cpp b/core/db/source_file_record.cpp
index f89cdd3..3f90faf 100644
--- a/core/db/source_file_record.cpp
+++ b/core/db/source_file_record.cpp
@@ -79,9 +79,6 @@ Maike::Exec::Command Maike::Db::makeBuildCommand(SourceFileRecordConst const& re
 	CmdOptsString str;
 	store(cmd_opts, str, KeyValueStore::PrettyPrint{false});
 
-	auto recipe =
-	   compiler.recipe() == "" ? makeShellExecPath(rec.path()) : std::move(compiler.recipe());
-
-	return Exec::Command{std::move(recipe),
+	return Exec::Command{makeShellExecPath(compiler.recipe() == "" ? rec.path() : compiler.recipe()),
 	                     std::vector<std::string>{"compile", std::move(str.buffer)}};
 }
-- 
2.43.0


From 61cc13e7443cf7060e1b950ca630783edf511f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:46 +0000
Subject: [PATCH 18/34] fix: merge true and false as values of the same type

---
 core/key_value_store/compound.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/key_value_store/compound.cpp b/core/key_value_store/compound.cpp
index 1f59a9f..e07b7bf 100644
--- a/core/key_value_store/compound.cpp
+++ b/core/key_value_store/compound.cpp
@@ -7,12 +7,23 @@
 
 #include <algorithm>
 
+namespace
+{
+	// true and false are values of the same type
+	bool sameType(Maike::KeyValueStore::Type a, Maike::KeyValueStore::Type b)
+	{
+		using Maike::KeyValueStore::Type;
+		auto const is_bool = [](Type t) { return t == Type::True || t == Type::False; };
+		return a == b || (is_bool(a) && is_bool(b));
+	}
+}
+
 Maike::KeyValueStore::Compound& Maike::KeyValueStore::operator|=(Compound& a, CompoundRefConst b)
 {
 	std::for_each(std::begin(b), std::end(b), [&a](auto const& item) {
 		if(auto item_in_a = a.getIfAny(item.first); item_in_a)
 		{
-			if(item_in_a->type() != item.second.type()) { throw std::runtime_error{"Type mismatch"}; }
+			if(!sameType(item_in_a->type(), item.second.type())) { throw std::runtime_error{"Type mismatch"}; }
 
 			switch(item_in_a->type())
 			{
-- 
2.43.0


From 6b2c939721f929fd86190043b3de25c8d0f396ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:10 +0000
Subject: [PATCH 19/34] fix: treat control characters at the beginning of a
 line as blanks in tags

---
 core/source_file_info_loaders/cxx/source_file_loader.cpp       | 2 +-
 core/source_file_info_loaders/extension/source_file_loader.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 0b918b9..e15819c 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -441,7 +441,7 @@ void Cxx::SourceFileLoader::filterInput(
 						}
 						else
 						{
-							tags.putchar(ch_in);
+							tags.putchar(ch_in == '\n' ? '\n' : ' ');
 						}
 						break;
 				}
diff --git a/core/source_file_info_loaders/extension/source_file_loader.cpp b/core/source_file_info_loaders/extension/source_file_loader.cpp
index 6c85ada..9793fdf 100644
--- a/core/source_file_info_loaders/extension/source_file_loader.cpp
+++ b/core/source_file_info_loaders/extension/source_file_loader.cpp
@@ -47,7 +47,7 @@ void Extension::SourceFileLoader::filterInput(
 						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = State::SkipLine; }
 						else
 						{
-							tags.putchar(ch_in);
+							tags.putchar(ch_in == '\n' ? '\n' : ' ');
 						}
 						break;
 				}
-- 
2.43.0


From 6f2b53e13edf9d04c86efd28a3ff928013e92d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 20/34] fix: accept an absolute target directory when C++
 sources are compiled

---
 recipes/cxx_compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 0d3f384..5c659fa 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -24,7 +24,7 @@ def format_iquote(src_dir, target_dir, dirs):
 		else:
 			ret.append('-iquote%s/%s'%(src_dir, item))
 
-		ret.append('-iquote%s/%s/%s'%(os.getcwd(), target_dir, item))
+		ret.append('-iquote%s'%os.path.join(os.getcwd(), target_dir, item))
 	return ret
 
 def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependencies):
-- 
2.43.0


From d0faeb6f0ade44f82c7cad6daf0341965c5adc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 21/34] fix: find generated headers next to C++ sources in the
 current directory

---
 recipes/cxx_compiler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 5c659fa..a7ab21f 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -30,9 +30,7 @@ def format_iquote(src_dir, target_dir, dirs):
 def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependencies):
 	tmp = []
 	tmp.extend(compiler_flags['cflags'])
-	iquote = []
-	if src_file_dir != '':
-		iquote.append(os.path.relpath(src_file_dir, src_dir))
+	iquote = [os.path.relpath(src_file_dir if src_file_dir != '' else '.', src_dir)]
 	iquote.extend(compiler_flags['iquote'])
 	tmp.extend(format_iquote(src_dir, target_dir, iquote))
 	for item in dependencies:
-- 
2.43.0


From 6007ee3fa8de70eb90dde560e0ea357b0822b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 22/34] fix: accept a language revision with only an upper
 limit

---
 recipes/cxx_compiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index a7ab21f..3e900ea 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -145,6 +145,7 @@ def select_cpp_rev(compiler, rev):
 			return ''
 	else:
 		if 'max' in rev:
+			max_num = get_numeric_rev(rev['max'])
 			default_rev = get_cpp_revision_tag(compiler)
 			if default_rev > max_num:
 				return rev['max']
-- 
2.43.0


From a245cd8a58ebeb5e09845385383c43b6425748e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 23/34] fix: let a generic recipe fail when its command fails

---
 recipes/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/generic.py b/recipes/generic.py
index c654226..179a02c 100755
--- a/recipes/generic.py
+++ b/recipes/generic.py
@@ -42,7 +42,7 @@ if __name__ == '__main__':
 		if sys.argv[1] == 'configure':
 			exit(0)
 		if sys.argv[1] == 'compile':
-			compile(args);
+			exit(compile(args))
 	except Exception as e:
 		print(e, file=sys.stderr)
 		exit(-1)
\ No newline at end of file
-- 
2.43.0


From f51ba5f213c94ac4bcb4530a928cf88a48c2bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 24/34] fix: do not keep archive members that are no longer
 listed

---
 recipes/make_lib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/recipes/make_lib.py b/recipes/make_lib.py
index 9b3a5a1..7859185 100755
--- a/recipes/make_lib.py
+++ b/recipes/make_lib.py
@@ -31,7 +31,10 @@ def filter_deps(dep_items):
 
 def compile(build_args):
 	args = [compiler, 'rcs']
-	args.append(build_args['targets'][0])
+	target = build_args['targets'][0]
+	if os.path.exists(target): # Otherwise, members that are no longer listed would be kept
+		os.remove(target)
+	args.append(target)
 	args.extend(filter_deps(collect_deps(build_args['dependencies'])))
 	result = subprocess.run(args)
 	return result.returncode
-- 
2.43.0


From f300f992346763c84b0e93ece38bab27117794c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 25/34] fix: make all targets of a library or an application

---
 recipes/cxx_linker.py | 4 ++++
 recipes/make_lib.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/recipes/cxx_linker.py b/recipes/cxx_linker.py
index 0fbfee7..cae6822 100755
--- a/recipes/cxx_linker.py
+++ b/recipes/cxx_linker.py
@@ -5,6 +5,7 @@
 import sys
 import json
 import os
+import shutil
 import subprocess
 import pkg_config
 
@@ -50,6 +51,9 @@ def compile(build_args):
 	args.append('-o')
 	args.append(build_args['targets'][0])
 	result = subprocess.run(args)
+	if result.returncode == 0:
+		for target in build_args['targets'][1:]:
+			shutil.copy(build_args['targets'][0], target)
 	return result.returncode
 
 if __name__ == '__main__':
diff --git a/recipes/make_lib.py b/recipes/make_lib.py
index 7859185..d194183 100755
--- a/recipes/make_lib.py
+++ b/recipes/make_lib.py
@@ -3,6 +3,7 @@
 import sys
 import json
 import os
+import shutil
 import subprocess
 
 compiler = os.environ['AR'] if 'AR' in os.environ else 'ar'
@@ -37,6 +38,9 @@ def compile(build_args):
 	args.append(target)
 	args.extend(filter_deps(collect_deps(build_args['dependencies'])))
 	result = subprocess.run(args)
+	if result.returncode == 0:
+		for item in build_args['targets'][1:]:
+			shutil.copyfile(target, item)
 	return result.returncode
 
 if __name__ == '__main__':
-- 
2.43.0


From cb84179be16a527da8a793d9cbda8a4297f9486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 26/34] fix: fail when pandoc fails

---
 recipes/md2htmlpart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/md2htmlpart.py b/recipes/md2htmlpart.py
index ca4f51a..7ba1168 100755
--- a/recipes/md2htmlpart.py
+++ b/recipes/md2htmlpart.py
@@ -16,6 +16,8 @@ def find_elements(node, element, result):
 
 def convert(src_file, target):
 	pandoc_res = subprocess.run(['pandoc', '-f', 'markdown', '-t', 'html', '--section-divs', src_file], text=True, stdout=subprocess.PIPE)
+	if pandoc_res.returncode != 0:
+		return pandoc_res.returncode
 
 	doc = '<content>' + pandoc_res.stdout + '</content>'
 
-- 
2.43.0


From 5c1ada74ffcc103b619f082bdae8eb7118462536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:31 +0000
Subject: [PATCH 27/34] fix: accept a document in the current directory

---
 recipes/doc2html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/doc2html.py b/recipes/doc2html.py
index d3c37b8..3592510 100755
--- a/recipes/doc2html.py
+++ b/recipes/doc2html.py
@@ -12,7 +12,7 @@ def compile(args):
 	target_dir = args['build_info']['target_dir']
 	targets = args['targets']
 	source_file = args['source_file']
-	current_dir =  target_dir + '/' + os.path.relpath(os.path.dirname(source_file), args['build_info']['source_dir'])
+	current_dir =  target_dir + '/' + os.path.relpath(os.path.dirname(source_file) or '.', args['build_info']['source_dir'])
 	with open(os.path.dirname(__file__) + '/doc2html.xsl') as f:
 		cmd = ['xsltproc', '-o', targets[0], '--nonet', '--stringparam', 'current_dir', current_dir, '-', source_file]
 		proc = subprocess.Popen(cmd, stdin=f, stderr=subprocess.PIPE)
-- 
2.43.0


From 56d4c7f21678295b4828c2ba875663aa24eb998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 28/34] fix: report symbolic links that form a cycle

A link to a folder it is reached through was followed until the system gave up, and with
two of them the scan of the source tree did not come to an end.
---
 core/source_tree_loader/directory_scanner.cpp | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/core/source_tree_loader/directory_scanner.cpp b/core/source_tree_loader/directory_scanner.cpp
index daa9971..a7678e8 100644
--- a/core/source_tree_loader/directory_scanner.cpp
+++ b/core/source_tree_loader/directory_scanner.cpp
@@ -6,6 +6,24 @@
 
 #include "core/utils/with_mutex.hpp"
 
+namespace
+{
+	// A symbolic link that leads back to one of the folders it is reached through would have to be
+	// followed forever.
+	bool leadsBack(Maike::fs::path const& src_path, Maike::fs::path const& root)
+	{
+		if(!is_symlink(src_path) || !is_directory(src_path)) { return false; }
+
+		auto dir = src_path.lexically_normal();
+		while(dir != root && !dir.empty())
+		{
+			dir = dir.parent_path();
+			if(equivalent(dir.empty() ? Maike::fs::path{"."} : dir, src_path)) { return true; }
+		}
+		return false;
+	}
+}
+
 Maike::SourceTreeLoader::DirectoryScanner&
 Maike::SourceTreeLoader::DirectoryScanner::processPath(fs::path const& src_path,
                                                        fs::path const& target_dir)
@@ -50,6 +68,14 @@ void Maike::SourceTreeLoader::DirectoryScanner::processPath(
 			if(r_dir_filter.get().match((src_path.lexically_relative(m_root)).c_str())) { return; }
 		}
 
+		if(src_path != m_root && leadsBack(src_path, m_root))
+		{
+			throw fs::filesystem_error{
+			   "Symbolic link leads back to a folder it is reached through",
+			   src_path,
+			   std::make_error_code(std::errc::too_many_symbolic_link_levels)};
+		}
+
 		auto src_path_normal = src_path.lexically_normal();
 		auto i = invokeWithMutex<std::shared_lock>(
 		   m_source_files_mtx,
-- 
2.43.0


From 154697dd9bc145e01d4416241de0f6ff2292bfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 29/34] fix: write what was asked for to the given path

The paths given to --help, --version, --about, --configdump, --list-targets and
--print-dep-graph were ignored.
---
 core/bin/maike.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index 0a0e054..919aa66 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -67,6 +67,15 @@ Maike::Db::CompilationLog::LogLevel getLogLevel(Maike::CommandLine const& cmdlin
 	          Maike::Db::CompilationLog::LogLevel::SourceFileInfo;
 }
 
+void redirectOutput(Maike::fs::path const& path)
+{
+	if(!path.empty() && freopen(path.c_str(), "wb", stdout) == nullptr)
+	{
+		throw std::runtime_error{std::string{"It was not possible to open "} + path.string()
+		                         + " for writing"};
+	}
+}
+
 void printTargets(Maike::Db::TargetList const& targets,
                   Maike::fs::path const& target_dir,
                   Maike::fs::path const&)
@@ -295,18 +304,21 @@ int main(int argc, char** argv)
 		Maike::CommandLine const cmdline{argc - 1, argv + 1};
 		if(cmdline.hasOption<Maike::CmdLineOption::Help>())
 		{
+			redirectOutput(cmdline.option<Maike::CmdLineOption::Help>());
 			printHelp(cmdline);
 			return 0;
 		}
 
 		if(cmdline.hasOption<Maike::CmdLineOption::Version>())
 		{
+			redirectOutput(cmdline.option<Maike::CmdLineOption::Version>());
 			printVersion(cmdline.option<Maike::CmdLineOption::Version>());
 			return 0;
 		}
 
 		if(cmdline.hasOption<Maike::CmdLineOption::About>())
 		{
+			redirectOutput(cmdline.option<Maike::CmdLineOption::About>());
 			printAbout(cmdline.option<Maike::CmdLineOption::About>());
 			return 0;
 		}
@@ -327,6 +339,7 @@ int main(int argc, char** argv)
 
 		if(cmdline.hasOption<Maike::CmdLineOption::ConfigDump>())
 		{
+			redirectOutput(cmdline.option<Maike::CmdLineOption::ConfigDump>());
 			dumpConfig(cfg, cmdline.option<Maike::CmdLineOption::ConfigDump>());
 			return 0;
 		}
@@ -371,14 +384,16 @@ int main(int argc, char** argv)
 
 		if(cmdline.hasOption<Maike::CmdLineOption::ListTargets>())
 		{
+			redirectOutput(cmdline.option<Maike::CmdLineOption::ListTargets>());
 			printTargets(src_tree.targets(),
 			             build_info.targetDir(),
-			             cmdline.option<Maike::CmdLineOption::PrintDepGraph>());
+			             cmdline.option<Maike::CmdLineOption::ListTargets>());
 			return 0;
 		}
 
 		if(cmdline.hasOption<Maike::CmdLineOption::PrintDepGraph>())
 		{
+			redirectOutput(cmdline.option<Maike::CmdLineOption::PrintDepGraph>());
 			printDepGraph(src_tree.dependencyGraph(), cmdline.option<Maike::CmdLineOption::PrintDepGraph>());
 			return 0;
 		}
-- 
2.43.0


From 654049be2786c0427f0ddad4acbff646caa96ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 30/34] fix: print the backward dependency graph

--print-dep-graph-inv built the project instead.
---
 core/bin/maike.cpp | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index 919aa66..e50d32e 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -85,6 +85,15 @@ void printTargets(Maike::Db::TargetList const& targets,
 	});
 }
 
+void printDigraph(std::set<std::pair<Maike::fs::path, Maike::fs::path>> const& edges)
+{
+	puts("digraph \"G\" {\nrankdir=LR\n");
+	std::for_each(std::begin(edges), std::end(edges), [](auto const& item) {
+		printf("\"%s\" -> \"%s\"\n", item.first.c_str(), item.second.c_str());
+	});
+	puts("}");
+}
+
 void printDepGraph(Maike::Db::DependencyGraph const& source_files, Maike::fs::path const&)
 {
 	std::set<std::pair<Maike::fs::path, Maike::fs::path>> output;
@@ -102,11 +111,20 @@ void printDepGraph(Maike::Db::DependencyGraph const& source_files, Maike::fs::pa
 		      item);
 	   },
 	   source_files);
-	puts("digraph \"G\" {\nrankdir=LR\n");
-	std::for_each(std::begin(output), std::end(output), [](auto const& item) {
-		printf("\"%s\" -> \"%s\"\n", item.first.c_str(), item.second.c_str());
-	});
-	puts("}");
+	printDigraph(output);
+}
+
+void printDepGraphInv(Maike::Db::DependencyGraph const& source_files, Maike::fs::path const&)
+{
+	std::set<std::pair<Maike::fs::path, Maike::fs::path>> output;
+	visitNodes(
+	   [&output](auto const& item) {
+		   visitEdges(
+		      [&output, &item](auto const& edge) { output.insert(std::pair{edge.name(), item.path()}); },
+		      item);
+	   },
+	   source_files);
+	printDigraph(output);
 }
 
 void printHelp(Maike::CommandLine const& cmdline)
@@ -398,6 +416,14 @@ int main(int argc, char** argv)
 			return 0;
 		}
 
+		if(cmdline.hasOption<Maike::CmdLineOption::PrintDepGraphInv>())
+		{
+			redirectOutput(cmdline.option<Maike::CmdLineOption::PrintDepGraphInv>());
+			printDepGraphInv(src_tree.dependencyGraph(),
+			                 cmdline.option<Maike::CmdLineOption::PrintDepGraphInv>());
+			return 0;
+		}
+
 		Maike::Exec::LocalExecve invoker{cmdline.hasOption<Maike::CmdLineOption::DryRun>()};
 		Maike::Db::CompilationLog log{getOutputFormat(cmdline), getLogLevel(cmdline)};
 
-- 
2.43.0


From 69bbda7bbb42fe81c0e9eaeba33a5239a7512644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 31/34] fix: reject malformed thread counts

Text after the number was ignored, and numbers that do not fit were taken for others.
---
 core/sched/thread_count.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/sched/thread_count.cpp b/core/sched/thread_count.cpp
index 1b10edd..ea3a49a 100644
--- a/core/sched/thread_count.cpp
+++ b/core/sched/thread_count.cpp
@@ -4,6 +4,7 @@
 
 #include "./thread_count.hpp"
 
+#include <cerrno>
 #include <cstring>
 #include <cstdlib>
 #include <stdexcept>
@@ -20,8 +21,11 @@ Maike::ThreadCount::ThreadCount(char const* str)
 	if(strcmp(str, "auto") == 0) { m_val = -1; }
 	else
 	{
-		m_val = atoi(str);
-		if(m_val < 1)
+		char* end;
+		errno = 0;
+		auto const val = strtol(str, &end, 10);
+		m_val = static_cast<int>(val);
+		if(end == str || *end != '\0' || errno != 0 || val < 1 || val != m_val)
 		{ throw std::runtime_error{"ThreadCount must be an integer greater than zero, or auto"}; }
 	}
 }
-- 
2.43.0


From 3458ead9ae0ad0320bc86786bfb3baf6a04215cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 32/34] fix: reject build ids of the wrong length

Missing digits were made up, and excess ones ignored.
---
 core/build/id.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/build/id.cpp b/core/build/id.cpp
index 4970618..c579a09 100644
--- a/core/build/id.cpp
+++ b/core/build/id.cpp
@@ -35,7 +35,10 @@ Maike::Build::Id::Id(char const* cstr): m_bytes{}
 	while(true)
 	{
 		auto ch_in = *cstr;
-		if(ch_in == '\0' || k == 64) { return; }
+		if(ch_in == '\0' && k == 2 * std::size(m_bytes)) { return; }
+
+		if(ch_in == '\0' || k == 2 * std::size(m_bytes))
+		{ throw std::runtime_error{"Invalid BuildId: 64 hexadecimal digits are needed"}; }
 
 		auto nibble = to_nibble(ch_in);
 
-- 
2.43.0


From 269bd256bab9eef3ba1edb0937267e25fd128e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 33/34] fix: reject timestamps that cannot be represented

They were taken for other timestamps.
---
 core/utils/system_time_stamp.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/utils/system_time_stamp.cpp b/core/utils/system_time_stamp.cpp
index 449f6d9..7ac59d0 100644
--- a/core/utils/system_time_stamp.cpp
+++ b/core/utils/system_time_stamp.cpp
@@ -16,7 +16,11 @@ Maike::SystemTimeStamp::SystemTimeStamp(char const* str)
 	auto l = strlen(str);
 	errno = 0;
 	auto tmp = strtoll(str, &end, 0);
-	if(end != str + l || errno != 0)
+	using Seconds = std::chrono::seconds;
+	using Clock = std::chrono::system_clock;
+	if(l == 0 || end != str + l || errno != 0
+	   || tmp > std::chrono::duration_cast<Seconds>(Clock::duration::max()).count()
+	   || tmp < std::chrono::duration_cast<Seconds>(Clock::duration::min()).count())
 	{ throw std::runtime_error{std::string{"Invalid timestamp "} + str}; }
 	m_val = std::chrono::system_clock::from_time_t(tmp);
 }
-- 
2.43.0


From 267f06f8f0e636237b1c76b62867c49e08905c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 34/34] fix: print nothing for source files that are up to date
 when only errors are asked for

An empty line was printed for each of them.
---
 core/db/compilation_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/db/compilation_log.cpp b/core/db/compilation_log.cpp
index 2eec4b1..a1d21b4 100644
--- a/core/db/compilation_log.cpp
+++ b/core/db/compilation_log.cpp
@@ -105,7 +105,7 @@ Maike::Db::CompilationLog& Maike::Db::CompilationLog::write(Task const& task)
 		case LogLevel::Errors: break;
 	}
 
-	stdout_buff += '\n';
+	if(std::size(stdout_buff) > 0) { stdout_buff += "\n"; }
 
 	std::lock_guard lock{m_output_mutex};
 	fputs(stdout_buff.c_str(), stdout);
-- 
2.43.0

