//! Virtual kernel and fork-tree explorer.
//!
//! The program under test runs in this process on top of a virtual kernel (datagram sockets, select,
//! timers, clock, uuids, signals, process spawn). Whenever it waits and nothing is ready, the driver is
//! asked for the next environment action. `choose` forks one process per alternative, hence explores all.
#pragma once

#include <cstddef>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <sys/types.h>

namespace vk
{
   using bytes = std::vector< std::uint8_t>;

   // ------------------------------------------------------------------ explorer

   struct Options
   {
      std::string property;              //!< id
      std::string tier = "quick";
      long budget = 240;                 //!< seconds; exploration is cut (and reported so) beyond that
      int step_seconds = 20;             //!< cpu seconds between two choice points before it counts as a hang
      std::string level = "model_checking";
      std::string rule;                  //!< for evidence
      std::vector< std::string> assumptions;
      std::vector< std::string> known;   //!< from known-findings file, filled by main
   };

   //! one alternative per forked process. 0 <= result < n
   int choose( int n, const std::string& label);
   //! same with a name for each alternative (in the trace)
   int choose( const std::vector< std::string>& names, const std::string& label);

   //! ends this path: everything was fine
   [[noreturn]] void finish( const char* why = "end");

   //! the property is broken. kind is a stable signature, text the details.
   [[noreturn]] void violation( const std::string& kind, const std::string& text = {});

   //! the harness itself is broken (not a verdict about the property)
   [[noreturn]] void broken( const std::string& text);

   //! @return false if the state has been explored before with at least `remaining` steps left
   bool visit( const std::string& state, int remaining);
   //! prunes (finishes) if visited before
   void visit_or_finish( const std::string& state, int remaining);

   //! a complete sequence has been executed, within the process (counts as a state: the history).
   //! @return false if the budget is used up
   bool sequence();

   //! counts a transition (an action that was applied)
   void transition();
   //! counts one oracle evaluation
   void evaluated( long count = 1);

   //! counters by name, for the evidence
   void cover( const std::string& name, long count = 1);
   //! like cover but keeps max
   void cover_max( const std::string& name, long value);

   //! adds to the trace, for humans
   void note( const std::string& text);
   bool replaying();

   const std::string& tier();
   inline bool thorough() { return tier() == "thorough";}

   //! uuids (32 hex digits) are renamed by first appearance
   std::string canonical( const std::string& text);

   //! runs everything: body is run in a forked process and shall end by finish (returning is the same).
   //! The first argument is the property.
   int main( int argc, char** argv, Options options, std::function< void( const std::string&)> body);

   // ------------------------------------------------------------------ kernel

   struct Endpoint
   {
      int id{};
      std::string path;
      int fd = -1;                                  //!< owned by the program under test if != -1
      std::deque< bytes> queue;                     //!< datagrams not read yet
      //! for peers. called when the program under test sends a datagram here.
      std::function< void( const bytes&)> receive;
      //! answers for the next non blocking sends: true -> would block
      std::function< bool()> full;
      bool gone{};
      //! nothing is taken from non blocking sends, and select tells so
      bool slow{};
   };

   namespace kernel
   {
      //! asked when the program waits, and nothing is ready. Shall make something happen, or end the path.
      //! argument: the descriptors that are waited for
      extern std::function< void( const std::vector< int>& read, const std::vector< int>& write)> idle;

      Endpoint* endpoint( const std::string& path);
      Endpoint& peer( const std::string& path, std::function< void( const bytes&)> receive);
      void remove( const std::string& path);
      std::map< std::string, Endpoint>& endpoints();

      // virtual time, nanoseconds since epoch
      std::int64_t now();
      void advance( std::int64_t ns);
      //! each time the program reads the clock, so much passes
      extern std::int64_t tick;
      //! the process has crashed: its inbound messages, timer, signals are gone
      void crash();
      //! @return due time of the armed real-time timer, or -1
      std::int64_t timer();
      //! time passes to the timer, and its signal gets pending. false if not armed
      bool fire_timer();
      //! arms count (to see if it has been rearmed)
      void signal( int number);
      std::vector< int> pending_signals();

      //! kill() of other processes
      extern std::function< int( pid_t, int)> on_kill;
      //! posix_spawn: @return pid or -errno
      extern std::function< int( const std::string& path, const std::vector< std::string>& arguments, const std::vector< std::string>& environment)> on_spawn;
      //! waitpid: returns pid (0 nothing), sets status
      extern std::function< pid_t( pid_t, int* status, int options)> on_wait;

      //! called after each sendto of program (after delivery)
      extern std::function< void()> after_send;

      //! deterministic uuids
      std::uint64_t uuid_counter();

      pid_t pid();

      //! everything pending in the kernel, canonical
      //! times are given relative to base
      std::string state( std::int64_t base = 0);

      // ---- streams (tcp): one end belongs to the program, the other to the driver
      struct Stream
      {
         int fd = -1;
         bytes in;                     //!< to be read by the program
         bytes out;                    //!< written by the program
         bool peer_closed{};           //!< read gives eof (after in), write gives EPIPE
         bool reset{};                 //!< read gives ECONNRESET
         bool closed{};                //!< the program closed it
         //! limits for the next read/write, asked at each call; -1 would block
         std::function< long( long wanted)> read_limit;
         std::function< long( long wanted)> write_limit;
         std::function< void()> on_write;
         int connect_error = 0;        //!< SO_ERROR
      };
      //! a connected stream with a new descriptor
      Stream& stream();
      Stream* stream( int fd);
      std::map< int, Stream>& streams();
      //! connect() to an internet address. the descriptor is a stream already. @return 0, or errno
      extern std::function< int( Stream&)> on_connect;
      //! descriptors that listen -> number of connections that wait to be accepted
      std::map< int, int>& listeners();
      //! descriptors that are bound to an internet address -> port (only if on_accept is set)
      std::map< int, int>& ports();
      //! a connection has been accepted
      extern std::function< void( int listener, Stream&)> on_accept;
   }
}
