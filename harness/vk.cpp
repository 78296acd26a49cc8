#include "vk.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>
#include <string_view>

#include <csignal>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <uuid/uuid.h>
#include <netdb.h>
#include <netinet/in.h>

namespace vk
{
   namespace
   {
      constexpr int slots = 32;
      constexpr int slot_size = 64 * 1024;
      constexpr int sample_size = 3000;
      constexpr int cover_count = 256;
      constexpr std::uint64_t table_size = 1ull << 25;

      struct Slot
      {
         std::atomic< int> used;
         int length;
         char kind[ 256];
         char text[ slot_size];     // choices line, then details and trace
      };

      struct Cover
      {
         std::atomic< int> used;   // 0 free, 1 being written, 2 ready
         char name[ 120];
         std::atomic< long> count;
      };

      struct Shared
      {
         std::atomic< long> states, revisits, transitions, executions, evaluations, pruned, forks, choices;
         std::atomic< int> tokens;
         std::atomic< int> stop, truncated, broken_count, violation_count, max_choices;
         std::atomic< long> sample_next;
         std::atomic< int> sample_count;
         char samples[ 4][ sample_size];
         char broken[ 8192];
         Slot violation[ slots];
         std::atomic< long> known_hits[ 64];
         Cover covers[ cover_count];
         char replay_kind[ 256];
         char replay_text[ slot_size];
      };

      struct Step { int choice; int count; std::string label; };

      Shared* shared = nullptr;
      std::atomic< std::uint64_t>* table = nullptr;
      Options options;
      std::vector< Step> trace;
      std::vector< std::string> notes;
      bool own_token = false;
      bool in_body = false;
      std::vector< int> replay_list;
      bool replay_mode = false;
      std::size_t replay_next = 0;
      timespec deadline{};
      std::string scratch;

      template< typename F>
      F real( const char* name)
      {
         return reinterpret_cast< F>( ::dlsym( RTLD_NEXT, name));
      }

      timespec real_now()
      {
         timespec ts;
         ::syscall( SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
         return ts;
      }

      bool expired()
      {
         auto now = real_now();
         return now.tv_sec > deadline.tv_sec || ( now.tv_sec == deadline.tv_sec && now.tv_nsec > deadline.tv_nsec);
      }

      void watchdog()
      {
         itimerval value{};
         value.it_value.tv_sec = options.step_seconds;
         static auto native = real< int(*)( int, const itimerval*, itimerval*)>( "setitimer");
         native( ITIMER_PROF, &value, nullptr);
      }

      std::string render( bool choices_only = false)
      {
         std::string out = "choices:";
         for( auto& s : trace) out += ' ' + std::to_string( s.choice);
         out += '\n';
         if( choices_only) return out;
         for( auto& n : notes) { out += n; out += '\n';}
         return out;
      }

      [[noreturn]] void leave()
      {
         if( own_token) shared->tokens.fetch_add( 1);
         static auto native = real< void(*)( int)>( "_exit");
         native( 0);
         __builtin_unreachable();
      }

      void copy( char* target, std::size_t size, std::string_view text)
      {
         auto n = std::min( size - 1, text.size());
         std::memcpy( target, text.data(), n);
         target[ n] = 0;
      }

      void record( const char* kind, const std::string& text)
      {
         if( replay_mode)
         {
            copy( shared->replay_kind, sizeof( shared->replay_kind), kind);
            copy( shared->replay_text, slot_size, render() + "\n" + text);
            return;
         }
         for( std::size_t i = 0; i < options.known.size() && i < 64; ++i)
            if( options.known[ i] == kind)
            {
               shared->known_hits[ i]++;
               return;
            }

         shared->violation_count++;
         // keep the shortest per kind, and stop when we have seen some
         for( auto& slot : shared->violation)
         {
            int expected = 0;
            if( slot.used.compare_exchange_strong( expected, 1))
            {
               copy( slot.kind, sizeof( slot.kind), kind);
               copy( slot.text, slot_size, render() + "violation: " + kind + "\n" + text + "\n");
               slot.length = trace.size();
               slot.used = 2;
               if( &slot - shared->violation >= 11) shared->stop = 1;
               return;
            }
         }
         shared->stop = 1;
      }

      void crash_handler( int number)
      {
         static bool once = false;
         if( ! once)
         {
            once = true;
            std::string name = number == SIGPROF ? "hang" : number == SIGABRT ? "abort" : number == SIGSEGV ? "segmentation fault" : "signal " + std::to_string( number);
            record( ( std::string( "crash: ") + name).c_str(), "the program under test was terminated: " + name);
         }
         leave();
      }

      void install_crash_handlers()
      {
         static char* stack = static_cast< char*>( ::mmap( nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
         stack_t alternative{};
         alternative.ss_sp = stack;
         alternative.ss_size = 1 << 18;
         ::sigaltstack( &alternative, nullptr);
         static auto native = real< int(*)( int, const struct sigaction*, struct sigaction*)>( "sigaction");
         for( auto number : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGTRAP})
         {
            struct sigaction action{};
            action.sa_handler = crash_handler;
            action.sa_flags = SA_ONSTACK | SA_NODEFER;
            native( number, &action, nullptr);
         }
      }

      std::uint64_t hash( const std::string& text)
      {
         // two rounds of a 64 bit mix (wyhash like)
         std::uint64_t h = 0x9e3779b97f4a7c15ull ^ text.size();
         auto mix = []( std::uint64_t a, std::uint64_t b){ __uint128_t r = static_cast< __uint128_t>( a) * b; return static_cast< std::uint64_t>( r) ^ static_cast< std::uint64_t>( r >> 64);};
         const char* p = text.data();
         auto left = text.size();
         while( left >= 8)
         {
            std::uint64_t v; std::memcpy( &v, p, 8);
            h = mix( h ^ v ^ 0xa0761d6478bd642full, 0xe7037ed1a0b428dbull ^ ( h >> 32));
            p += 8; left -= 8;
         }
         std::uint64_t v = 0; std::memcpy( &v, p, left);
         h = mix( h ^ v, 0x8ebc6af09c88c6e3ull);
         h = mix( h ^ 0x589965cc75374cc3ull, h | 1);
         return h;
      }

      Cover* cover_slot( const std::string& name)
      {
         for( auto& cover : shared->covers)
         {
            auto used = cover.used.load();
            if( used == 0)
            {
               int expected = 0;
               if( cover.used.compare_exchange_strong( expected, 1))
               {
                  copy( cover.name, sizeof( cover.name), name);
                  cover.used = 2;
                  return &cover;
               }
               used = expected;
            }
            while( cover.used.load() == 1) ;
            if( name.compare( 0, sizeof( cover.name) - 1, cover.name) == 0)
               return &cover;
         }
         return nullptr;
      }

      std::string escape( const std::string& text)
      {
         std::string out;
         for( unsigned char c : text)
         {
            if( c == '"' || c == '\\') { out += '\\'; out += c;}
            else if( c == '\n') out += "\\n";
            else if( c < 0x20 || c > 0x7e) { char b[ 8]; std::snprintf( b, sizeof b, "\\u%04x", c); out += b;}
            else out += c;
         }
         return out;
      }

      void sample()
      {
         auto number = shared->executions.fetch_add( 1);
         if( replay_mode) return;
         if( number < shared->sample_next.load()) return;
         auto index = shared->sample_count.fetch_add( 1);
         shared->sample_next = number < 1 ? 50 : number * 20;
         if( index < 4)
            copy( shared->samples[ index], sample_size, render());
      }
   } // <unnamed>

   int choose( int n, const std::string& label)
   {
      watchdog();
      if( n <= 0) broken( "choose with no alternative: " + label);

      auto chosen = [&]( int i)
      {
         trace.push_back( { i, n, label});
         if( n > 1)
            notes.push_back( "  [" + std::to_string( i) + "/" + std::to_string( n) + "] " + label);
         return i;
      };

      if( replay_mode)
      {
         if( replay_next >= replay_list.size()) finish( "replay-end");
         auto i = replay_list[ replay_next++];
         if( i >= n) broken( "replay diverged at " + label);
         return chosen( i);
      }

      if( shared->stop) leave();
      if( expired()) { shared->truncated = 1; leave();}

      shared->choices++;
      for( int i = 0; i < n - 1; ++i)
      {
         auto tokens = shared->tokens.load();
         bool parallel = false;
         while( tokens > 0 && ! parallel)
            parallel = shared->tokens.compare_exchange_weak( tokens, tokens - 1);

         shared->forks++;
         auto pid = ::fork();
         if( pid == 0)
         {
            own_token = parallel;
            watchdog();
            return chosen( i);
         }
         if( pid < 0)
         {
            if( parallel) shared->tokens.fetch_add( 1);
            broken( "fork failed");
         }
         if( ! parallel)
         {
            int status = 0;
            static auto native = real< pid_t(*)( pid_t, int*, int)>( "waitpid");
            while( native( pid, &status, 0) == -1 && errno == EINTR) ;
            if( ! WIFEXITED( status)) broken( "a child was killed, status " + std::to_string( status));
            if( shared->stop) leave();
            if( expired()) { shared->truncated = 1; leave();}
         }
      }
      watchdog();
      return chosen( n - 1);
   }

   int choose( const std::vector< std::string>& names, const std::string& label)
   {
      auto i = choose( static_cast< int>( names.size()), label);
      notes.push_back( label + " -> " + names.at( i));
      return i;
   }

   void finish( const char* why)
   {
      notes.push_back( std::string( "# ") + why);
      if( int( trace.size()) > shared->max_choices) shared->max_choices = trace.size();
      sample();
      leave();
   }

   void violation( const std::string& kind, const std::string& text)
   {
      record( kind.c_str(), text);
      leave();
   }

   void broken( const std::string& text)
   {
      if( shared->broken_count.fetch_add( 1) == 0)
         copy( shared->broken, sizeof( shared->broken), text + "\n" + render());
      shared->stop = 1;
      leave();
   }

   bool visit( const std::string& state, int remaining)
   {
      if( replay_mode) return true;
      auto h = hash( state);
      auto key = h & ~0xffull;
      if( key == 0) key = 0x100;
      std::uint64_t wanted = key | static_cast< std::uint64_t>( std::min( remaining, 254) + 1);
      auto index = ( h >> 20) & ( table_size - 1);
      for( std::uint64_t probe = 0; probe < 1024; ++probe, index = ( index + 1) & ( table_size - 1))
      {
         auto current = table[ index].load();
         while( true)
         {
            if( current == 0)
            {
               if( table[ index].compare_exchange_weak( current, wanted))
               {
                  shared->states++;
                  return true;
               }
               continue;
            }
            if( ( current & ~0xffull) != key) break; // next probe
            if( ( current & 0xff) >= ( wanted & 0xff))
            {
               shared->pruned++;
               return false;
            }
            if( table[ index].compare_exchange_weak( current, wanted))
            {
               shared->revisits++;
               return true;
            }
         }
      }
      broken( "state table is full");
   }

   void visit_or_finish( const std::string& state, int remaining)
   {
      if( std::getenv( "VK_STATES")) std::fprintf( stderr, "---- STATE %d\n%s\n", remaining, state.c_str());
      if( ! visit( state, remaining))
         finish( "seen before");
   }

   void transition() { shared->transitions++;}
   bool sequence()
   {
      static int count = 0;
      ++shared->states;
      if( ++count % 256 == 0)
      {
         watchdog();
         if( shared->stop) leave();
         if( ! replay_mode && expired()) { shared->truncated = 1; return false;}
      }
      return true;
   }

   void evaluated( long count) { shared->evaluations += count;}

   void cover( const std::string& name, long count)
   {
      if( auto slot = cover_slot( name)) slot->count += count;
   }

   void cover_max( const std::string& name, long value)
   {
      if( auto slot = cover_slot( name))
      {
         auto current = slot->count.load();
         while( current < value && ! slot->count.compare_exchange_weak( current, value)) ;
      }
   }

   void note( const std::string& text)
   {
      notes.push_back( text);
      if( replay_mode && std::getenv( "VK_VERBOSE")) std::fprintf( stderr, "%s\n", text.c_str());
   }

   bool replaying() { return replay_mode;}
   const std::string& tier() { return options.tier;}

   std::string canonical( const std::string& text)
   {
      std::string out;
      out.reserve( text.size());
      std::vector< std::string> names;
      std::map< std::string, int> index;
      auto hex = []( char c){ return ( c >= '0' && c <= '9') || ( c >= 'a' && c <= 'f');};
      std::size_t i = 0;
      while( i < text.size())
      {
         if( text[ i] == '0' && i + 8 < text.size() && text[ i + 1] == 'x' && ( i == 0 || ! std::isalnum( static_cast< unsigned char>( text[ i - 1]))))
         {
            // addresses in memory
            auto j = i + 2;
            while( j < text.size() && hex( text[ j])) ++j;
            if( j - i > 8)
            {
               out += "0x@";
               i = j;
               continue;
            }
         }
         if( hex( text[ i]) && ( i == 0 || ! std::isalnum( static_cast< unsigned char>( text[ i - 1]))))
         {
            auto j = i;
            while( j < text.size() && hex( text[ j])) ++j;
            if( j - i == 32 && ( j == text.size() || ! std::isalnum( static_cast< unsigned char>( text[ j]))))
            {
               auto id = text.substr( i, 32);
               auto [ at, inserted] = index.emplace( id, static_cast< int>( index.size()));
               out += '@' + std::to_string( at->second);
               i = j;
               continue;
            }
            out.append( text, i, j - i);
            i = j;
            continue;
         }
         out += text[ i++];
      }
      return out;
   }

   namespace
   {
      void usage( const char* name)
      {
         std::fprintf( stderr, "usage: %s --tier quick|thorough --evidence FILE --replay-dir DIR --known FILE | --replay FILE\n", name);
      }

      void run_body( const std::function< void()>& body)
      {
         install_crash_handlers();
         in_body = true;
         watchdog();
         try
         {
            body();
         }
         catch( const std::exception& e)
         {
            record( "crash: exception", std::string( "an exception escaped the program under test: ") + e.what());
            leave();
         }
         catch( ...)
         {
            record( "crash: exception", "an exception escaped the program under test");
            leave();
         }
         finish( "returned");
      }

      pid_t start( const std::function< void()>& body)
      {
         auto pid = ::fork();
         if( pid == 0) run_body( body);
         return pid;
      }

      //! waits for all descendants
      bool reap()
      {
         bool ok = true;
         static auto native = real< pid_t(*)( pid_t, int*, int)>( "waitpid");
         while( true)
         {
            int status = 0;
            auto pid = native( -1, &status, 0);
            if( pid == -1)
            {
               if( errno == EINTR) continue;
               break;
            }
            if( ! WIFEXITED( status)) { ok = false; shared->stop = 1; std::fprintf( stderr, "a process ended by signal %d\n", WTERMSIG( status));}
         }
         return ok;
      }

      std::vector< int> parse_choices( const std::string& text)
      {
         std::vector< int> result;
         auto at = text.find( "choices:");
         if( at == std::string::npos) return result;
         std::istringstream in( text.substr( at + 8, text.find( '\n', at) - at - 8));
         int value;
         while( in >> value) result.push_back( value);
         return result;
      }

      std::string replay( const std::vector< int>& choices, const std::function< void()>& body, std::string* text = nullptr)
      {
         shared->replay_kind[ 0] = 0;
         shared->replay_text[ 0] = 0;
         replay_mode = true;
         replay_list = choices;
         replay_next = 0;
         trace.clear();
         notes.clear();
         auto broken = shared->broken_count.load();
         start( body);
         reap();
         replay_mode = false;
         if( shared->broken_count.load() != broken) { return std::string( "broken: ") + shared->broken;}
         if( text) *text = shared->replay_text;
         return shared->replay_kind;
      }
   }

   int main( int argc, char** argv, Options opts, std::function< void( const std::string&)> run)
   {
      options = std::move( opts);
      std::string evidence, replay_file, replay_dir = "/tmp", known_file;
      int workers = 0;
      for( int i = 1; i < argc; ++i)
      {
         std::string a = argv[ i];
         auto next = [&]{ if( i + 1 >= argc) { usage( argv[ 0]); std::exit( 2);} return std::string( argv[ ++i]);};
         if( a == "--tier") options.tier = next();
         else if( a == "--evidence") evidence = next();
         else if( a == "--replay") replay_file = next();
         else if( a == "--replay-dir") replay_dir = next();
         else if( a == "--known") known_file = next();
         else if( a == "--budget") options.budget = std::stol( next());
         else if( a == "--workers") workers = std::stoi( next());
         else if( a[ 0] != '-') options.property = a;
         else { usage( argv[ 0]); return 2;}
      }
      auto body = std::function< void()>{ [run]{ run( options.property);}};

      ::mallopt( M_PERTURB, 0x5a);
      ::signal( SIGPIPE, SIG_IGN);

      void* memory = ::mmap( nullptr, sizeof( Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      void* states = ::mmap( nullptr, table_size * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if( memory == MAP_FAILED || states == MAP_FAILED) { std::perror( "mmap"); return 2;}
      shared = new ( memory) Shared{};
      table = static_cast< std::atomic< std::uint64_t>*>( states);
      ::prctl( PR_SET_CHILD_SUBREAPER, 1);

      auto begin = real_now();
      deadline = begin;
      deadline.tv_sec += options.budget;
      if( workers <= 0) workers = std::max( 1l, ::sysconf( _SC_NPROCESSORS_ONLN));
      shared->tokens = workers - 1;

      std::vector< std::string> known_text;
      if( ! known_file.empty())
      {
         std::ifstream in( known_file);
         std::string line;
         while( std::getline( in, line))
         {
            // finding: property=X signature="..." text
            if( line.rfind( "finding: property=" + options.property + " ", 0) != 0) continue;
            auto at = line.find( "signature=\"");
            if( at == std::string::npos) continue;
            auto end = line.find( '"', at + 11);
            options.known.push_back( line.substr( at + 11, end - at - 11));
            known_text.push_back( line.substr( std::min( line.size(), end + 2)));
         }
      }

      if( ! replay_file.empty())
      {
         std::ifstream in( replay_file);
         std::stringstream buffer; buffer << in.rdbuf();
         std::string text;
         auto kind = replay( parse_choices( buffer.str()), body, &text);
         std::printf( "%s\n", text.c_str());
         std::printf( "result: %s\n", kind.empty() ? "no violation" : kind.c_str());
         return kind.empty() ? 0 : 1;
      }

      start( body);
      bool ok = reap();

      int result = 0;
      long reported = 0;

      // deterministic: replay before report. one per kind, the shortest
      std::map< std::string, Slot*> kinds;
      for( auto& slot : shared->violation)
         if( slot.used == 2)
         {
            auto& current = kinds[ slot.kind];
            if( ! current || slot.length < current->length) current = &slot;
         }
      int number = 0;
      for( auto& [ kind, slot] : kinds)
      {
         auto choices = parse_choices( slot->text);
         auto first = replay( choices, body);
         auto second = replay( choices, body);
         if( first != kind || second != kind)
         {
            std::fprintf( stderr, "not reproduced (not reported): '%s' -> '%s' / '%s'\n%s\n", kind.c_str(), first.c_str(), second.c_str(), slot->text);
            shared->broken_count++;
            continue;
         }
         auto path = replay_dir + "/" + options.property + "-" + std::to_string( number++) + ".replay";
         std::ofstream out( path);
         out << "property: " << options.property << "\nprogram: " << argv[ 0] << " " << options.property << " --tier " << options.tier << " --replay " << path << "\n" << slot->text;
         out.close();
         if( reported++ < 5)
         {
            std::printf( "VIOLATION property=%s replay=%s\n  %s\n", options.property.c_str(), path.c_str(), kind.c_str());
            std::string text = slot->text;
            if( text.size() > 6000) text = text.substr( 0, 6000) + "...";
            std::printf( "%s\n", text.c_str());
         }
         result = 1;
      }

      for( std::size_t i = 0; i < options.known.size() && i < 64; ++i)
         if( shared->known_hits[ i] > 0)
            std::printf( "KNOWN-FINDING: property=%s %s [%s] (%ld histories)\n", options.property.c_str(), known_text[ i].c_str(), options.known[ i].c_str(), shared->known_hits[ i].load());

      auto end = real_now();
      double wall = ( end.tv_sec - begin.tv_sec) + ( end.tv_nsec - begin.tv_nsec) / 1e9;

      std::ostringstream json;
      json << "{\n \"property\": \"" << options.property << "\", \"tier\": \"" << options.tier << "\", \"seed\": " << ( std::getenv( "VERIF_SEED") ? std::atoi( std::getenv( "VERIF_SEED")) : 1)
         << ", \"level\": \"" << options.level << "\",\n \"coverage\": {\n"
         << "  \"states\": " << shared->states.load()
         << ", \"transitions\": " << shared->transitions.load()
         << ", \"traces_validated_against_impl\": " << shared->executions.load()
         << ", \"evaluations\": " << shared->evaluations.load()
         << ", \"distinct_nontrivial\": " << shared->states.load()
         << ",\n  \"executions\": " << shared->executions.load()
         << ", \"pruned_revisits\": " << shared->pruned.load()
         << ", \"processes_forked\": " << shared->forks.load()
         << ", \"longest_choice_sequence\": " << shared->max_choices.load()
         << ",\n  \"exhaustive\": " << ( shared->truncated || shared->stop ? "false" : "true")
         << ",\n  \"rule\": \"" << escape( options.rule) << "\""
         << ",\n  \"covered\": {";
      bool firstc = true;
      for( auto& cover : shared->covers)
         if( cover.used == 2)
         {
            json << ( firstc ? "" : ", ") << "\"" << escape( cover.name) << "\": " << cover.count.load();
            firstc = false;
         }
      json << "},\n  \"samples\": [";
      for( int i = 0; i < std::min( 4, shared->sample_count.load()); ++i)
         json << ( i ? ",\n   " : "\n   ") << "\"" << escape( shared->samples[ i]) << "\"";
      json << "]\n },\n \"assumptions\": [";
      for( std::size_t i = 0; i < options.assumptions.size(); ++i)
         json << ( i ? ", " : "") << "\"" << escape( options.assumptions[ i]) << "\"";
      json << "],\n \"wall_s\": " << wall << ", \"violations\": " << reported << "\n}\n";
      if( ! evidence.empty())
      {
         std::ofstream out( evidence + ".tmp");
         out << json.str();
         out.close();
         std::rename( ( evidence + ".tmp").c_str(), evidence.c_str());
      }
      std::printf( "%s %s: states %ld, transitions %ld, executions %ld, oracle evaluations %ld, pruned %ld, forks %ld%s, %.1f s\n",
         options.property.c_str(), options.tier.c_str(), shared->states.load(), shared->transitions.load(), shared->executions.load(), shared->evaluations.load(),
         shared->pruned.load(), shared->forks.load(), shared->truncated ? " (cut by time budget)" : shared->stop ? " (stopped)" : " (exhaustive within bounds)", wall);
      if( std::getenv( "VK_COVER"))
         for( auto& cover : shared->covers)
            if( cover.used == 2) std::printf( "   %-60s %ld\n", cover.name, cover.count.load());

      if( result == 0 && ( shared->broken_count > 0 || ! ok))
      {
         std::printf( "harness error: %s\n", shared->broken);
         return 2;
      }
      return result;
   }

   // ===================================================================== kernel

   namespace kernel
   {
      std::function< void( const std::vector< int>&, const std::vector< int>&)> idle;
      std::function< int( pid_t, int)> on_kill;
      std::function< int( const std::string&, const std::vector< std::string>&, const std::vector< std::string>&)> on_spawn;
      std::function< pid_t( pid_t, int*, int)> on_wait;
      std::function< void()> after_send;
      std::int64_t tick = 0;

      namespace
      {
         // note: these need to be usable before static initialization of this file.
         std::map< std::string, Endpoint>& registry() { static auto& value = *new std::map< std::string, Endpoint>; return value;}
         std::map< int, std::string>& bound() { static auto& value = *new std::map< int, std::string>; return value;}
         std::map< int, int>& all_listeners() { static auto& value = *new std::map< int, int>; return value;}
         std::map< int, int>& all_ports() { static auto& value = *new std::map< int, int>; return value;}
         //! senders that have been refused by a slow endpoint
         std::map< int, std::string>& refused() { static auto& value = *new std::map< int, std::string>; return value;}
         std::map< int, Stream>& all_streams() { static auto& value = *new std::map< int, Stream>; return value;}
         int next_id = 1;

         std::int64_t clock_now = 1'700'000'000'000'000'000ll;
         std::int64_t timer_due = -1;
         std::uint64_t uuids = 0;

         sigset_t mask{};
         std::uint64_t pending = 0;
         struct sigaction handlers[ 65]{};

         bool virtual_signal( int number)
         {
            switch( number)
            {
               case SIGSEGV: case SIGABRT: case SIGBUS: case SIGFPE: case SIGILL: case SIGPROF: case SIGTRAP: return false;
            }
            return number > 0 && number < 65;
         }

         bool tracing() { static bool value = std::getenv( "VK_TRACE"); return value;}

         bool deliver( const sigset_t& current)
         {
            bool result = false;
            for( int i = 1; i < 64; ++i)
               if( ( pending >> i & 1) && ! sigismember( &current, i))
               {
                  pending &= ~( 1ull << i);
                  auto& handler = handlers[ i];
                  if( tracing()) std::fprintf( stderr, "%lld signal %d\n", (long long)clock_now, i);
                  if( handler.sa_handler != SIG_IGN && handler.sa_handler != SIG_DFL)
                  {
                     handler.sa_handler( i);
                     result = true;
                  }
               }
            return result;
         }
      }

      Endpoint* endpoint( const std::string& path)
      {
         auto found = registry().find( path);
         return found == registry().end() ? nullptr : &found->second;
      }

      Endpoint& peer( const std::string& path, std::function< void( const bytes&)> receive)
      {
         auto& result = registry()[ path];
         result.path = path;
         result.receive = std::move( receive);
         result.gone = false;
         if( ! result.id) result.id = next_id++;
         return result;
      }

      void remove( const std::string& path) { registry().erase( path);}
      std::map< std::string, Endpoint>& endpoints() { return registry();}

      std::int64_t now() { return clock_now;}
      void advance( std::int64_t ns)
      {
         clock_now += ns;
         if( timer_due >= 0 && timer_due <= clock_now)
         {
            timer_due = -1;
            signal( SIGALRM);
         }
      }
      void crash()
      {
         for( auto& [ fd, path] : bound())
            if( auto found = endpoint( path)) found->queue.clear();
         timer_due = -1;
         pending = 0;
         sigemptyset( &mask);
      }
      std::int64_t timer() { return timer_due;}
      bool fire_timer()
      {
         if( timer_due < 0) return false;
         if( clock_now < timer_due) clock_now = timer_due;
         timer_due = -1;
         signal( SIGALRM);
         return true;
      }
      void signal( int number) { pending |= 1ull << number; if( in_body) deliver( mask);}
      std::vector< int> pending_signals()
      {
         std::vector< int> result;
         for( int i = 1; i < 64; ++i) if( pending >> i & 1) result.push_back( i);
         return result;
      }
      std::uint64_t uuid_counter() { return uuids;}
      pid_t pid() { return 1000;}

      Stream& stream()
      {
         auto fd = ::open( "/dev/null", O_RDWR | O_CLOEXEC);
         auto& result = all_streams()[ fd];
         result = Stream{};
         result.fd = fd;
         return result;
      }
      Stream* stream( int fd)
      {
         auto found = all_streams().find( fd);
         return found == all_streams().end() ? nullptr : &found->second;
      }
      std::map< int, Stream>& streams() { return all_streams();}
      std::map< int, int>& listeners() { return all_listeners();}
      std::map< int, int>& ports() { return all_ports();}
      std::function< int( Stream&)> on_connect;
      std::function< void( int, Stream&)> on_accept;

      std::string state( std::int64_t base)
      {
         std::ostringstream out;
         out << "kernel{ now: " << clock_now - base << ", timer: " << ( timer_due < 0 ? -1 : base ? ( timer_due - base) / 1'000'000 : timer_due) << ", signals: " << pending;
         auto dump = [&out]( const bytes& data)
         {
            static const char* digits = "0123456789abcdef";
            // uuids in binary data have to be canonicalized: they are printed as 16 byte groups by the driver
            std::string text;
            for( auto b : data) { text += digits[ b >> 4]; text += digits[ b & 15];}
            out << text;
         };
         for( auto& [ path, endpoint] : registry())
         {
            if( endpoint.queue.empty()) continue;
            out << ", queue: " << path.substr( path.rfind( '/') + 1) << "[";
            for( auto& m : endpoint.queue) { dump( m); out << '|';}
            out << "]";
         }
         for( auto& [ fd, s] : all_streams())
         {
            out << ", stream " << fd << " c" << s.peer_closed << s.reset << s.closed << " in[";
            dump( s.in);
            out << "] out[";
            dump( s.out);
            out << "]";
         }
         for( auto& [ fd, waiting] : all_listeners()) out << ", listener " << fd << ' ' << waiting;
         out << "}";
         return out.str();
      }
   }
}

// ======================================================================== interposition

using namespace vk;
using namespace vk::kernel;

extern "C"
{
   int bind( int fd, const sockaddr* address, socklen_t size)
   {
      if( address->sa_family == AF_UNIX)
      {
         auto path = std::string( reinterpret_cast< const sockaddr_un*>( address)->sun_path);
         if( registry().contains( path)) { errno = EADDRINUSE; return -1;}
         auto& endpoint = registry()[ path];
         endpoint.id = next_id++;
         endpoint.path = path;
         endpoint.fd = fd;
         bound()[ fd] = path;
         return 0;
      }
      if( on_accept && ( address->sa_family == AF_INET || address->sa_family == AF_INET6))
      {
         auto port = address->sa_family == AF_INET ? reinterpret_cast< const sockaddr_in*>( address)->sin_port : reinterpret_cast< const sockaddr_in6*>( address)->sin6_port;
         all_ports()[ fd] = ntohs( port);
         return 0;
      }
      static auto native = real< int(*)( int, const sockaddr*, socklen_t)>( "bind");
      return native( fd, address, size);
   }

   static bool internet( const sockaddr* address) { return address && ( address->sa_family == AF_INET || address->sa_family == AF_INET6);}

   int connect( int fd, const sockaddr* address, socklen_t size)
   {
      if( internet( address) && on_connect)
      {
         auto& result = all_streams()[ fd];
         result = kernel::Stream{};
         result.fd = fd;
         auto error = on_connect( result);
         if( error && error != EINPROGRESS) all_streams().erase( fd);
         if( error) { errno = error; return -1;}
         return 0;
      }
      static auto native = real< int(*)( int, const sockaddr*, socklen_t)>( "connect");
      return native( fd, address, size);
   }

   int listen( int fd, int backlog)
   {
      if( on_accept) { all_listeners()[ fd] = 0; return 0;}
      static auto native = real< int(*)( int, int)>( "listen");
      return native( fd, backlog);
   }

   int accept( int fd, sockaddr* address, socklen_t* size)
   {
      if( auto found = all_listeners().find( fd); found != all_listeners().end())
      {
         if( found->second == 0) { errno = EAGAIN; return -1;}
         --found->second;
         // a real socket, options are set
         auto id = ::socket( AF_INET, SOCK_STREAM, 0);
         auto& result = all_streams()[ id];
         result = kernel::Stream{};
         result.fd = id;
         on_accept( fd, result);
         return id;
      }
      static auto native = real< int(*)( int, sockaddr*, socklen_t*)>( "accept");
      return native( fd, address, size);
   }

   int getsockopt( int fd, int level, int name, void* value, socklen_t* size)
   {
      if( level == SOL_SOCKET && name == SO_ERROR)
         if( auto s = kernel::stream( fd))
         {
            *static_cast< int*>( value) = s->connect_error;
            *size = sizeof( int);
            return 0;
         }
      static auto native = real< int(*)( int, int, int, void*, socklen_t*)>( "getsockopt");
      return native( fd, level, name, value, size);
   }

   int close( int fd)
   {
      all_listeners().erase( fd);
      all_ports().erase( fd);
      refused().erase( fd);
      if( auto found = bound().find( fd); found != bound().end())
      {
         // the path is still there, but no one reads
         if( auto endpoint = kernel::endpoint( found->second))
         {
            endpoint->fd = -1;
            endpoint->queue.clear();
         }
         bound().erase( found);
      }
      if( auto s = kernel::stream( fd))
      {
         s->closed = true;
         auto keep = *s;
         all_streams().erase( fd);
         if( keep.on_write) keep.on_write();
      }
      static auto native = real< int(*)( int)>( "close");
      return native( fd);
   }

   int remove( const char* path)
   {
      if( registry().contains( path)) { registry().erase( path); return 0;}
      static auto native = real< int(*)( const char*)>( "remove");
      return native( path);
   }

   int unlink( const char* path)
   {
      if( registry().contains( path)) { registry().erase( path); return 0;}
      static auto native = real< int(*)( const char*)>( "unlink");
      return native( path);
   }

   int stat( const char* path, struct stat* result)
   {
      static auto native = real< int(*)( const char*, struct stat*)>( "stat");
      if( registry().contains( path))
      {
         std::memset( result, 0, sizeof( *result));
         result->st_mode = S_IFSOCK | 0700;
         return 0;
      }
      return native( path, result);
   }

   ssize_t sendto( int fd, const void* data, size_t size, int flags, const sockaddr* address, socklen_t address_size)
   {
      if( ! address || address->sa_family != AF_UNIX)
      {
         static auto native = real< ssize_t(*)( int, const void*, size_t, int, const sockaddr*, socklen_t)>( "sendto");
         return native( fd, data, size, flags, address, address_size);
      }
      auto path = std::string( reinterpret_cast< const sockaddr_un*>( address)->sun_path);
      if( kernel::tracing()) std::fprintf( stderr, "%lld send %s\n", (long long)clock_now, path.c_str());
      auto endpoint = kernel::endpoint( path);
      if( ! endpoint || endpoint->gone) { errno = ENOENT; return -1;}
      if( endpoint->fd == -1 && ! endpoint->receive) { errno = ECONNREFUSED; return -1;}
      if( ( flags & MSG_DONTWAIT) && endpoint->slow)
      {
         refused()[ fd] = path;
         errno = EAGAIN;
         return -1;
      }
      if( ( flags & MSG_DONTWAIT) && endpoint->full && endpoint->full())
      {
         errno = EAGAIN;
         return -1;
      }
      auto begin = static_cast< const std::uint8_t*>( data);
      bytes payload( begin, begin + size);
      if( endpoint->fd != -1)
         endpoint->queue.push_back( std::move( payload));
      else
      {
         auto receive = endpoint->receive; // might remove it self
         receive( payload);
      }
      if( after_send) after_send();
      errno = 0;
      return size;
   }

   ssize_t recv( int fd, void* data, size_t size, int flags)
   {
      if( auto s = kernel::stream( fd))
      {
         long limit = size;
         if( s->reset) { errno = ECONNRESET; return -1;}
         if( s->in.empty())
         {
            if( s->peer_closed) return 0;
            errno = EAGAIN;
            return -1;
         }
         if( s->read_limit) limit = s->read_limit( std::min< long>( size, s->in.size()));
         if( limit < 0) { errno = EAGAIN; return -1;}
         auto count = std::min< long>( { limit, long( size), long( s->in.size())});
         std::memcpy( data, s->in.data(), count);
         if( ! ( flags & MSG_PEEK)) s->in.erase( s->in.begin(), s->in.begin() + count);
         return count;
      }
      auto found = bound().find( fd);
      if( found == bound().end())
      {
         static auto native = real< ssize_t(*)( int, void*, size_t, int)>( "recv");
         return native( fd, data, size, flags);
      }
      auto endpoint = kernel::endpoint( found->second);
      if( ! endpoint || endpoint->queue.empty()) { errno = EAGAIN; return -1;}
      auto message = std::move( endpoint->queue.front());
      endpoint->queue.pop_front();
      if( kernel::tracing()) std::fprintf( stderr, "%lld recv %d\n", (long long)clock_now, int( message[ 0]) | message[ 1] << 8);
      auto count = std::min( size, message.size());
      std::memcpy( data, message.data(), count);
      return count;
   }

   static ssize_t stream_write( kernel::Stream& s, const iovec* parts, std::size_t count)
   {
      if( s.reset) { errno = ECONNRESET; return -1;}
      if( s.peer_closed) { errno = EPIPE; return -1;}
      long wanted = 0;
      for( std::size_t i = 0; i < count; ++i) wanted += parts[ i].iov_len;
      long limit = wanted;
      if( s.write_limit) limit = s.write_limit( wanted);
      if( s.reset) { errno = ECONNRESET; return -1;}
      if( s.peer_closed) { errno = EPIPE; return -1;}
      if( limit < 0) { errno = EAGAIN; return -1;}
      long written = 0;
      for( std::size_t i = 0; i < count && written < limit; ++i)
      {
         auto n = std::min< long>( limit - written, parts[ i].iov_len);
         auto begin = static_cast< const std::uint8_t*>( parts[ i].iov_base);
         s.out.insert( s.out.end(), begin, begin + n);
         written += n;
      }
      auto notify = s.on_write;
      if( notify) notify();
      return written;
   }

   ssize_t sendmsg( int fd, const msghdr* message, int flags)
   {
      if( auto s = kernel::stream( fd))
         return stream_write( *s, message->msg_iov, message->msg_iovlen);
      static auto native = real< ssize_t(*)( int, const msghdr*, int)>( "sendmsg");
      return native( fd, message, flags);
   }

   ssize_t send( int fd, const void* data, size_t size, int flags)
   {
      if( auto s = kernel::stream( fd))
      {
         iovec part{ const_cast< void*>( data), size};
         return stream_write( *s, &part, 1);
      }
      static auto native = real< ssize_t(*)( int, const void*, size_t, int)>( "send");
      return native( fd, data, size, flags);
   }

   ssize_t write( int fd, const void* data, size_t size)
   {
      if( auto s = kernel::stream( fd))
      {
         iovec part{ const_cast< void*>( data), size};
         return stream_write( *s, &part, 1);
      }
      static auto native = real< ssize_t(*)( int, const void*, size_t)>( "write");
      return native( fd, data, size);
   }

   int pselect( int count, fd_set* read, fd_set* write, fd_set* except, const timespec* timeout, const sigset_t* set)
   {
      fd_set wanted_read, wanted_write;
      if( read) wanted_read = *read; else FD_ZERO( &wanted_read);
      if( write) wanted_write = *write; else FD_ZERO( &wanted_write);

      std::vector< int> reads, writes;
      for( int fd = 0; fd < count; ++fd)
      {
         if( FD_ISSET( fd, &wanted_read)) reads.push_back( fd);
         if( FD_ISSET( fd, &wanted_write)) writes.push_back( fd);
      }

      for( int rounds = 0; ; ++rounds)
      {
         if( rounds > 100000) vk::broken( "the driver makes no progress");
         // signals
         {
            auto keep = mask;
            if( set) mask = *set;
            auto delivered = deliver( mask);
            mask = keep;
            if( delivered) { errno = EINTR; return -1;}
         }

         int ready = 0;
         fd_set result_read, result_write;
         FD_ZERO( &result_read); FD_ZERO( &result_write);
         for( auto fd : reads)
         {
            bool is = false;
            if( auto s = kernel::stream( fd))
               is = ! s->in.empty() || s->peer_closed || s->reset;
            else if( auto l = all_listeners().find( fd); l != all_listeners().end())
               is = l->second > 0;
            else if( auto found = bound().find( fd); found != bound().end())
            {
               auto endpoint = kernel::endpoint( found->second);
               is = endpoint && ! endpoint->queue.empty();
            }
            if( is) { FD_SET( fd, &result_read); ++ready;}
         }
         for( auto fd : writes)
         {
            if( auto s = kernel::stream( fd))
            {
               // a write limit below zero means full
               if( s->reset || s->peer_closed || ! s->write_limit || s->write_limit( -1) != -1) { FD_SET( fd, &result_write); ++ready;}
            }
            else
            {
               if( auto found = refused().find( fd); found != refused().end())
                  if( auto endpoint = kernel::endpoint( found->second); endpoint && endpoint->slow) continue;
               FD_SET( fd, &result_write); ++ready;
            }
         }
         if( ready > 0)
         {
            if( read) *read = result_read;
            if( write) *write = result_write;
            if( except) FD_ZERO( except);
            return ready;
         }
         if( timeout && timeout->tv_sec == 0 && timeout->tv_nsec == 0)
         {
            if( read) FD_ZERO( read);
            if( write) FD_ZERO( write);
            return 0;
         }
         if( ! idle) vk::broken( "the program waits, and there is no driver");
         if( kernel::tracing()) std::fprintf( stderr, "%lld idle\n", (long long)kernel::now());
         idle( reads, writes);
      }
   }

   int setitimer( __itimer_which_t which, const itimerval* value, itimerval* old)
   {
      if( which != ITIMER_REAL) { static auto native = real< int(*)( int, const itimerval*, itimerval*)>( "setitimer"); return native( which, value, old);}
      if( old)
      {
         *old = itimerval{};
         if( timer_due >= 0)
         {
            auto left = std::max< std::int64_t>( timer_due - clock_now, 1000);
            old->it_value.tv_sec = left / 1'000'000'000;
            old->it_value.tv_usec = left % 1'000'000'000 / 1000;
         }
      }
      auto ns = value->it_value.tv_sec * 1'000'000'000ll + value->it_value.tv_usec * 1000ll;
      timer_due = ns > 0 ? clock_now + ns : -1;
      return 0;
   }

   int getitimer( __itimer_which_t which, itimerval* value)
   {
      *value = itimerval{};
      if( timer_due >= 0)
      {
         auto left = std::max< std::int64_t>( timer_due - clock_now, 1000);
         value->it_value.tv_sec = left / 1'000'000'000;
         value->it_value.tv_usec = left % 1'000'000'000 / 1000;
      }
      return 0;
   }

   int clock_gettime( clockid_t id, timespec* ts)
   {
      if( tick) kernel::advance( tick);
      ts->tv_sec = clock_now / 1'000'000'000;
      ts->tv_nsec = clock_now % 1'000'000'000;
      return 0;
   }

   int gettimeofday( timeval* tv, void*)
   {
      if( tick) kernel::advance( tick);
      tv->tv_sec = clock_now / 1'000'000'000;
      tv->tv_usec = clock_now % 1'000'000'000 / 1000;
      return 0;
   }

   int nanosleep( const timespec* wanted, timespec* left)
   {
      kernel::advance( wanted->tv_sec * 1'000'000'000ll + wanted->tv_nsec);
      if( left) *left = timespec{};
      return 0;
   }

   void uuid_generate( uuid_t out)
   {
      std::memset( out, 0, 16);
      auto value = ++uuids;
      // looks like a (version 4) uuid, unique first bytes
      std::uint64_t mixed = value * 0x9e3779b97f4a7c15ull;
      std::memcpy( out, &mixed, 8);
      for( int i = 0; i < 8; ++i) out[ 15 - i] = value >> ( 8 * i);
      out[ 8] = 0xa5;
   }

   pid_t getpid() { return kernel::pid();}

   int kill( pid_t pid, int number)
   {
      if( pid == kernel::pid())
      {
         kernel::advance( 1000); // time passes, a program that signals it self until something is due gets there
         kernel::signal( number);
         return 0;
      }
      if( on_kill) return on_kill( pid, number);
      errno = ESRCH;
      return -1;
   }

   int sigaction( int number, const struct sigaction* action, struct sigaction* old)
   {
      if( ! virtual_signal( number))
      {
         static auto native = real< int(*)( int, const struct sigaction*, struct sigaction*)>( "sigaction");
         return native( number, action, old);
      }
      if( old) *old = handlers[ number];
      if( action) handlers[ number] = *action;
      return 0;
   }

   int pthread_sigmask( int how, const sigset_t* set, sigset_t* old)
   {
      if( old) *old = mask;
      if( set)
      {
         for( int i = 1; i < 64; ++i)
         {
            bool member = sigismember( set, i) == 1;
            if( how == SIG_SETMASK) { if( member) sigaddset( &mask, i); else sigdelset( &mask, i);}
            else if( member) { if( how == SIG_BLOCK) sigaddset( &mask, i); else sigdelset( &mask, i);}
         }
         if( in_body) deliver( mask);
      }
      return 0;
   }
   int sigprocmask( int how, const sigset_t* set, sigset_t* old) { return pthread_sigmask( how, set, old);}

   int posix_spawnp( pid_t* pid, const char* path, const posix_spawn_file_actions_t*, const posix_spawnattr_t*, char* const* arguments, char* const* environment)
   {
      if( ! on_spawn) return ENOENT;
      std::vector< std::string> args, env;
      for( ; arguments && *arguments; ++arguments) args.emplace_back( *arguments);
      for( ; environment && *environment; ++environment) env.emplace_back( *environment);
      auto result = on_spawn( path, args, env);
      if( result < 0) return -result;
      *pid = result;
      return 0;
   }

   pid_t waitpid( pid_t pid, int* status, int flags)
   {
      if( in_body)
      {
         if( on_wait) return on_wait( pid, status, flags);
         errno = ECHILD;
         return -1;
      }
      static auto native = real< pid_t(*)( pid_t, int*, int)>( "waitpid");
      return native( pid, status, flags);
   }
}
