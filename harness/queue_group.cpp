//! Q01 - Q04: the real casual-queue-group on a virtual kernel and an in-memory disk, driven through every
//! sequence of queue operations, transaction endings, deaths, time steps and crashes within the bounds of a
//! scenario. See DESIGN.md
#include "vkc.h"
#include "vkfs.h"

#include "queue/group/state.h"
#include "queue/group/handle.h"
#include "queue/common/ipc/message.h"
#include "common/message/transaction.h"
#include "common/message/event.h"

#include <csetjmp>

using namespace casual;
namespace cc = casual::common;
namespace msg = casual::common::message;
namespace qm = casual::queue::ipc::message;
namespace qg = casual::queue::ipc::message::group;

extern "C" int sut_main( int argc, const char** argv);

namespace { queue::group::State* sut_state = nullptr;}

queue::group::handle::dispatch_type real_handlers( queue::group::State&) asm( "__real__ZN6casual5queue5group8handlersERNS1_5StateE");
queue::group::handle::dispatch_type wrap_handlers( queue::group::State& state) asm( "__wrap__ZN6casual5queue5group8handlersERNS1_5StateE");
queue::group::handle::dispatch_type wrap_handlers( queue::group::State& state)
{
   sut_state = &state;
   return real_handlers( state);
}

namespace
{
   using Code = cc::code::queue;
   constexpr std::int64_t us = 1'000, ms = 1'000'000;
   const std::string database = "/vk/q.qb";

   // ------------------------------------------------------------ the model

   enum class At { gone, added, ready, taken};
   const char* name( At at) { static const char* names[] = { "gone", "added", "ready", "taken"}; return names[ int( at)];}

   struct Message
   {
      cc::Uuid id;
      int queue = 0, origin = 0;
      At at = At::added;
      int trid = -1;
      int redelivered = 0;
      std::int64_t available = 0;
      std::string properties, reply, type;
      platform::binary::type payload;
      bool loose{};                    //!< available is only known roughly
   };

   //! what the group should hold, and who waits
   struct Model
   {
      std::vector< Message> messages;  //!< in enqueue order
      std::vector< int> waiting;       //!< requests
   };

   enum class Kind { enqueue, dequeue, forget, death, prepare, commit, rollback, restore, clear, remove, recovery, time};
   const char* name( Kind kind) { static const char* names[] = { "enqueue", "dequeue", "forget", "death", "prepare", "commit", "rollback", "restore", "clear", "remove", "recovery", "time"}; return names[ int( kind)];}

   struct Request
   {
      Kind kind{};
      int queue = 0;
      int trid = -1;
      bool block{}, named{}, unknown{}, force{}, commit{};
      std::string properties;
      cc::Uuid selected;                //!< dequeue: by id. enqueue: id. remove: id
      std::int64_t available = 0;
      int size = 0;
      int target = -1;                  //!< forget, death: the request
      std::int64_t when = 0;

      vkc::Peer* client{};
      bool answered{}, lost{};
      Code code{};                      //!< answer
      cc::Uuid id;
      std::optional< qg::dequeue::Message> message;
      bool discarded{};
      long affected = -1;
      bool hard{};                      //!< the answer says that something is on disk
   };

   struct Snapshot { std::string rows; Model model;};

   struct World
   {
      std::string scenario;
      int depth = 0, limit = 0;
      Model model;
      std::vector< Request> requests;
      std::vector< int> step;                      //!< requests of this step, in order
      std::vector< Snapshot> history;
      std::map< int, int> effect;                  //!< request -> index of snapshot
      struct Written { vkfs::Image image; std::vector< int> answered;};
      std::vector< Written> written;               //!< in this step
      vkfs::Image last;
      std::string last_rows;
      std::set< int> involved;
      std::map< int, int> trid_state;              //!< 1 used, 2 prepared, 3 finished
      bool observing{}, hold{}, connected{}, configured{};
      std::vector< qg::message::Meta> meta; std::vector< qg::state::Reply> states; std::vector< qg::dequeue::Message> peeked, browsed; std::set< int> metas; bool browse_done{};
      vkc::Peer* qmanager{}; vkc::Peer* tm{}; vkc::Peer* observer{};
      bool configuring{};

      // bounds
      std::vector< int> queues{ 2};
      int retry = 1; std::int64_t delay = 0;
      std::optional< int> capacity;
      int max_enqueues = 3, max_dequeues = 3, max_trids = 1, max_batches = 0, max_crashes = 0, max_forgets = 0, max_deaths = 0, max_times = 0, max_admin = 0, max_odd = 0;
      int enqueues = 0, dequeues = 0, batches = 0, crashes = 0, forgets = 0, deaths = 0, times = 0, admin = 0, odd = 0;
      bool plain = true, blocking{}, nonblocking = true, properties{}, by_id{}, future{}, error_queue{}, prepare{};
      bool admin_clear{}, admin_remove{}, admin_recovery{}, admin_restore{};
      std::vector< int> sizes{ 10};
   };
   World& w = *new World;

   bool error_queue( int q) { return q % 2 == 1;}
   cc::transaction::ID trid_of( int n) { return cc::transaction::ID{ vkc::uuid( 0x60, n), vkc::uuid( 0x61, n), cc::process::Handle{ cc::strong::process::id{ 8000}, cc::strong::ipc::id{ vkc::uuid( 0x62, 1)}}};}

   std::string hex( const cc::Uuid& id) { return vkc::text( id);}

   std::string describe( const Request& r)
   {
      std::ostringstream out;
      out << name( r.kind);
      if( r.queue) out << " q" << r.queue;
      if( r.kind == Kind::prepare || r.kind == Kind::commit || r.kind == Kind::rollback || r.kind == Kind::recovery) out << ( r.kind == Kind::recovery ? r.commit ? " commit" : " rollback" : "") << " T" << r.trid;
      else if( r.trid >= 0) out << " in T" << r.trid;
      if( r.block) out << " blocking";
      if( ! r.properties.empty()) out << " properties " << r.properties;
      if( r.selected) out << " id " << hex( r.selected).substr( 0, 8);
      if( r.available) out << " available later";
      if( r.unknown) out << " unknown queue";
      if( r.target >= 0) out << " of R" << r.target;
      return out.str();
   }

   std::string dump( const Model& model)
   {
      std::ostringstream out;
      auto now = vk::kernel::now();
      for( auto& m : model.messages)
         if( m.at != At::gone)
            out << hex( m.id) << " q" << m.queue << " o" << m.origin << ' ' << name( m.at) << " T" << m.trid << " r" << m.redelivered << " a" << ( m.available <= now ? 0 : ( m.available - now + ms / 2) / ms) << ' ' << m.properties << ' ' << m.payload.size() << '\n';
      for( auto i : model.waiting)
      {
         auto& r = w.requests[ i];
         out << "waits " << vkc::text( vkc::uuid( 0x40, i)) << ' ' << vkc::text( r.client->handle.ipc) << " q" << r.queue << " T" << r.trid << ' ' << r.properties << ' ' << hex( r.selected) << '\n';
      }
      return out.str();
   }

   //! what is to be found in the database
   std::string rows( const Model& model)
   {
      std::vector< std::string> lines;
      for( auto& m : model.messages)
         if( m.at != At::gone)
         {
            std::ostringstream out;
            out << hex( m.id) << " q" << m.queue << " o" << m.origin << " s" << int( m.at) << " T" << ( m.at == At::ready ? -1 : m.trid) << " r" << m.redelivered << ' ' << m.properties << ' ' << m.reply << ' ' << m.type << ' ' << m.payload.size();
            lines.push_back( out.str());
         }
      std::sort( lines.begin(), lines.end());
      std::string result;
      for( auto& l : lines) result += l + '\n';
      return result;
   }

   std::string image_rows( const vkfs::Image& image)
   {
      static std::map< std::string, int> gtrids;
      if( gtrids.empty())
         for( int i = 0; i < 4; ++i)
         {
            std::string text;
            static const char* digits = "0123456789abcdef";
            auto trid = trid_of( i);
            for( auto b : cc::transaction::id::range::global( trid)) { text += digits[ std::to_integer< int>( b) >> 4]; text += digits[ std::to_integer< int>( b) & 15];}
            gtrids[ text] = i;
         }
      std::vector< std::string> lines;
      for( auto& row : vkfs::query( image, "SELECT id, queue, origin, state, gtrid, redelivered, properties, reply, type, length( payload) FROM message"))
      {
         if( row.back() == "no such table: message") continue; // not even created
         if( row.size() < 10) { lines.push_back( "unreadable: " + row.back()); continue;}
         auto state = std::stoi( row[ 3]);
         std::ostringstream out;
         out << row[ 0] << " q" << row[ 1] << " o" << row[ 2] << " s" << state << " T" << ( state == 2 ? -1 : gtrids.contains( row[ 4]) ? gtrids[ row[ 4]] : -2) << " r" << row[ 5] << ' ' << row[ 6] << ' ' << row[ 7] << ' ' << row[ 8] << ' ' << row[ 9];
         lines.push_back( out.str());
      }
      std::sort( lines.begin(), lines.end());
      std::string result;
      for( auto& l : lines) result += l + '\n';
      return result;
   }

   [[noreturn]] void violation( const std::string& kind, const std::string& text = {})
   {
      std::string steps;
      for( auto i : w.step) steps += "   in this step: R" + std::to_string( i) + " " + describe( w.requests[ i]) + ( w.requests[ i].answered ? " (answered)" : "") + "\n";
      vk::violation( kind, text + "\n" + steps + "expected before the step:\n" + dump( w.model) + "timer " + std::to_string( vk::kernel::timer() < 0 ? -1 : vk::kernel::timer() - vk::kernel::now()));
   }

   // ------------------------------------------------------------ answers

   int request_by( const cc::Uuid& correlation)
   {
      auto& v = correlation.get();
      if( v[ 0] != 0xee || v[ 1] != 0x40) return -1;
      int n = v[ 2] | v[ 3] << 8;
      return n < int( w.requests.size()) ? n : -1;
   }

   void record()
   {
      if( w.max_crashes == 0) return;
      World::Written written;
      written.image = vkfs::image( database);
      for( auto i : w.step) if( w.requests[ i].answered && w.requests[ i].hard) written.answered.push_back( i);
      for( auto i : w.model.waiting) if( w.requests[ i].answered && w.requests[ i].hard) written.answered.push_back( i);
      w.written.push_back( std::move( written));
   }

   void answer( int i, const cc::Uuid& correlation, const std::string& text)
   {
      auto& r = w.requests[ i];
      vk::note( "   -> R" + std::to_string( i) + ": " + text);
      vk::evaluated( 2);
      if( request_by( correlation) != i) violation( "an answer with the wrong correlation", "R" + std::to_string( i) + " " + text);
      if( r.answered) violation( "a request is answered more than once", "R" + std::to_string( i) + " " + describe( r) + ": " + text);
      if( r.lost) violation( "an answer to a request of before the crash", "R" + std::to_string( i));
      r.answered = true;
   }

   //! after the answer is sent
   void hard( int i) { w.requests[ i].hard = true; record();}

   void check_involved( int trid)
   {
      vk::evaluated();
      if( trid >= 0 && ! w.involved.contains( trid)) violation( "the transaction manager has not been told before a transactional answer");
   }

   void connect_client( int i)
   {
      auto& r = w.requests[ i];
      auto& c = vkc::peer( "c" + std::to_string( i), 0x30, i);
      r.client = &c;
      c.on< qg::enqueue::Reply>( [i]( auto& m)
      {
         answer( i, m.correlation.value(), "enqueue " + vkc::text( m.code) + " " + hex( m.id));
         auto& r = w.requests[ i];
         if( r.kind != Kind::enqueue) violation( "an answer of the wrong kind", describe( r));
         r.code = m.code; r.id = m.id;
         if( m.code == Code::ok)
         {
            check_involved( r.trid);
            if( r.trid < 0) hard( i);
         }
      });
      c.on< qg::dequeue::Reply>( [i]( auto& m)
      {
         answer( i, m.correlation.value(), "dequeue " + vkc::text( m.code) + " " + ( m.message ? hex( m.message->id) : "nothing"));
         auto& r = w.requests[ i];
         if( r.kind != Kind::dequeue) violation( "an answer of the wrong kind", describe( r));
         r.code = m.code; r.message = m.message;
         if( ( m.code == Code::ok) != m.message.has_value()) violation( "a dequeue answer says ok without a message, or the other way around");
         if( m.message) check_involved( r.trid);
         // has the client been told that nothing is to come?
         for( auto& o : w.requests) if( o.kind == Kind::forget && o.target == i && o.answered) violation( "an answer after the request has been answered as forgotten", "R" + std::to_string( i));
      });
      c.on< qg::dequeue::forget::Reply>( [i]( auto& m)
      {
         auto f = -1;
         for( int k = 0; k < int( w.requests.size()); ++k) if( w.requests[ k].kind == Kind::forget && w.requests[ k].target == i && ! w.requests[ k].answered) f = k;
         if( f < 0) violation( "a forget answer that nobody asked for");
         vk::note( "   -> R" + std::to_string( f) + ": forget, discarded " + std::to_string( m.discarded));
         if( request_by( m.correlation.value()) != i) violation( "an answer with the wrong correlation", "forget");
         auto& r = w.requests[ f];
         r.answered = true; r.discarded = m.discarded;
         vk::evaluated();
         if( ! m.discarded && ! w.requests[ i].answered) violation( "a request is reported as already answered, but its answer has not been sent", "R" + std::to_string( i));
         if( m.discarded && w.requests[ i].answered) violation( "a request that has been answered is reported as discarded", "R" + std::to_string( i));
      });
      auto transaction = [i]( Kind kind){ return [i, kind]( auto& m)
      {
         answer( i, m.correlation.value(), name( kind) + ( " " + vkc::text( m.state)));
         auto& r = w.requests[ i];
         if( r.kind != kind || m.trid != trid_of( r.trid) || m.resource.value() != 77) violation( "an answer about another transaction or resource", describe( r));
         if( m.state != cc::code::xa::ok) violation( "a transaction request fails", describe( r) + vkc::text( m.state));
         hard( i);
      };};
      c.on< msg::transaction::resource::prepare::Reply>( transaction( Kind::prepare));
      c.on< msg::transaction::resource::commit::Reply>( transaction( Kind::commit));
      c.on< msg::transaction::resource::rollback::Reply>( transaction( Kind::rollback));
      c.on< qg::queue::restore::Reply>( [i]( auto& m) { answer( i, m.correlation.value(), "restore"); w.requests[ i].affected = m.affected.size() == 1 ? m.affected[ 0].count : -2;});
      c.on< qg::queue::clear::Reply>( [i]( auto& m) { answer( i, m.correlation.value(), "clear"); w.requests[ i].affected = m.affected.size() == 1 ? m.affected[ 0].count : -2;});
      c.on< qg::message::remove::Reply>( [i]( auto& m) { answer( i, m.correlation.value(), "remove"); w.requests[ i].affected = m.ids.size();});
      c.on< qg::message::recovery::Reply>( [i]( auto& m) { answer( i, m.correlation.value(), "recovery"); w.requests[ i].affected = m.gtrids.size();});
   }

   // ------------------------------------------------------------ what may happen: the operations in order, waiting requests served in between

   bool matches( const Request& r, const Message& m, std::int64_t now)
   {
      if( m.at != At::ready || m.queue != r.queue) return false;
      if( r.selected) return m.id == r.selected;
      if( ! r.properties.empty() && m.properties != r.properties) return false;
      return m.available < now;
   }

   bool surely( const Request& r, const Message& m, std::int64_t now)
   {
      return matches( r, m, m.loose || m.available > 0 ? now - 2 * ms : now);
   }

   std::string serve( Model& model, int index)
   {
      auto& r = w.requests[ index];
      auto now = vk::kernel::now();
      auto& got = *r.message;
      auto found = std::find_if( model.messages.begin(), model.messages.end(), [&]( auto& m){ return m.at != At::gone && m.id == got.id;});
      if( found == model.messages.end()) return "a dequeue gives a message that does not exist";
      if( found->queue != r.queue) return "a dequeue gives a message of another queue";
      if( found->at != At::ready) return std::string( "a dequeue gives a message that is ") + ( found->at == At::added ? "not committed" : "already dequeued");
      Request loose = r;
      if( ! r.selected && found->available >= now + ( found->loose ? 2 * ms : 0)) return "a dequeue gives a message before it is available";
      if( r.selected && found->id != r.selected) return "a dequeue gives another message than the one asked for";
      if( ! r.selected && ! r.properties.empty() && found->properties != r.properties) return "a dequeue gives a message that does not match";
      for( auto m = model.messages.begin(); m != found; ++m)
         if( surely( r, *m, now)) return "messages come out of order";
      if( got.payload.data != found->payload || got.payload.type != found->type || got.attributes.properties != found->properties || got.attributes.reply != found->reply)
         return "a message is changed";
      if( got.redelivered != found->redelivered) return "the redelivery count is wrong";
      if( r.trid >= 0) { found->at = At::taken; found->trid = r.trid;}
      else found->at = At::gone;
      return {};
   }

   void do_commit( Model& model, int trid)
   {
      for( auto& m : model.messages)
      {
         if( m.trid != trid) continue;
         if( m.at == At::added) { m.at = At::ready; m.trid = -1;}
         else if( m.at == At::taken) m.at = At::gone;
      }
   }

   void do_rollback( Model& model, int trid)
   {
      for( auto& m : model.messages)
      {
         if( m.trid != trid) continue;
         if( m.at == At::added) m.at = At::gone;
         else if( m.at == At::taken)
         {
            m.at = At::ready; m.trid = -1;
            ++m.redelivered;
            m.available = 0;
            if( ! error_queue( m.queue) && w.delay > 0) { m.available = vk::kernel::now() + w.delay; m.loose = true;}
            if( ! error_queue( m.queue) && m.redelivered > w.retry) { m.redelivered = 0; m.available = 0; m.loose = false; m.queue -= 1; vk::cover( "moved to the error queue");}
         }
      }
   }

   //! @return what is wrong
   std::string apply( Model& model, int index)
   {
      auto& r = w.requests[ index];
      auto now = vk::kernel::now();
      if( r.kind != Kind::death && r.kind != Kind::time && ! r.answered && ! r.block) return "a request is not answered";
      switch( r.kind)
      {
         case Kind::enqueue:
         {
            std::int64_t used = 0;
            for( auto& m : model.messages) if( m.at != At::gone) used += m.payload.size();
            bool exists = r.selected && std::any_of( model.messages.begin(), model.messages.end(), [&]( auto& m){ return m.at != At::gone && m.id == r.selected;});
            bool full = w.capacity && *w.capacity - used < r.size;
            if( r.code == Code::ok)
            {
               if( r.unknown) return "an enqueue to an unknown queue is answered with ok";
               if( exists) return "a second message with the same identity is accepted";
               if( full) return "the capacity is exceeded";
               if( r.selected && r.id != r.selected) return "a message gets another identity";
               if( ! r.id) return "a message gets no identity";
               Message m;
               m.id = r.id; m.queue = m.origin = r.queue; m.at = r.trid >= 0 ? At::added : At::ready; m.trid = r.trid; m.available = r.available;
               m.properties = r.properties; m.reply = "reply-" + std::to_string( r.size); m.type = "X_OCTET/";
               m.payload.resize( r.size);
               for( int i = 0; i < r.size; ++i) m.payload[ i] = std::byte( i * 7 + index + 1);
               model.messages.push_back( m);
            }
            else if( ! r.unknown && ! exists && ! full) return "an enqueue fails";
            return {};
         }
         case Kind::dequeue:
         {
            if( r.unknown) return r.answered && r.code != Code::ok && r.code != Code::no_message ? "" : "a dequeue from an unknown queue is not refused";
            if( ! r.answered) { model.waiting.push_back( index); return {};}
            if( r.code == Code::ok)
            {
               auto error = serve( model, index);
               if( error.empty()) return {};
               if( ! r.block) return error;
               model.waiting.push_back( index); // later
               return {};
            }
            if( r.code != Code::no_message) return "a dequeue fails";
            if( r.block) return "a waiting request is answered without a message";
            for( auto& m : model.messages) if( surely( r, m, now)) return "a dequeue gives nothing though a message is available";
            return {};
         }
         case Kind::forget:
         {
            auto found = std::find( model.waiting.begin(), model.waiting.end(), r.target);
            if( r.discarded != ( found != model.waiting.end())) return r.discarded ? "a request that does not wait is reported as discarded" : "a request that waits is reported as answered";
            if( r.discarded) model.waiting.erase( found);
            return {};
         }
         case Kind::death:
            if( auto found = std::find( model.waiting.begin(), model.waiting.end(), r.target); found != model.waiting.end()) model.waiting.erase( found);
            return {};
         case Kind::prepare: return {};
         case Kind::commit: do_commit( model, r.trid); return {};
         case Kind::rollback: do_rollback( model, r.trid); return {};
         case Kind::recovery:
         {
            bool any = std::any_of( model.messages.begin(), model.messages.end(), [&]( auto& m){ return m.at != At::gone && m.trid == r.trid;});
            if( r.affected != any) return "recovery answers with the wrong transactions";
            if( r.commit) do_commit( model, r.trid); else do_rollback( model, r.trid);
            return {};
         }
         case Kind::restore:
         {
            long count = 0;
            for( auto& m : model.messages) if( m.at == At::ready && m.origin == r.queue && m.queue != r.queue) { m.queue = r.queue; ++count;}
            if( count != r.affected) return "restore answers with the wrong number of messages";
            return {};
         }
         case Kind::clear:
         {
            long count = 0;
            for( auto& m : model.messages) if( m.at == At::ready && m.queue == r.queue) { m.at = At::gone; ++count;}
            if( count != r.affected) return "clear answers with the wrong number of messages";
            return {};
         }
         case Kind::remove:
         {
            long count = 0;
            for( auto& m : model.messages) if( m.id == r.selected && m.queue == r.queue && ( m.at == At::ready || ( r.force && m.at != At::gone))) { m.at = At::gone; ++count;}
            if( count != r.affected) return "remove answers with the wrong messages";
            return {};
         }
         case Kind::time: return {};
      }
      return {};
   }

   struct Outcome { Model model; std::vector< std::pair< int, Snapshot>> snapshots;}; // request -> state after it

   struct Search
   {
      std::vector< Outcome> accepted;
      std::string error, detail;
      int best = -1;

      void fail( int progress, const std::string& text, int request)
      {
         if( progress <= best) return;
         best = progress; error = text; detail = request >= 0 ? "R" + std::to_string( request) + " " + describe( w.requests[ request]) : "";
      }

      void run( const Model& model, std::size_t k, std::vector< int> served, std::vector< std::pair< int, Snapshot>> snapshots, int progress)
      {
         if( accepted.size() >= 8) return;
         auto with = [&]( Model& next, int index)
         {
            auto copy = snapshots;
            copy.push_back( { index, { w.max_crashes ? rows( next) : "", w.max_crashes ? next : Model{}}});
            return copy;
         };
         if( k < w.step.size())
         {
            auto next = model;
            auto error = apply( next, w.step[ k]);
            if( error.empty())
            {
               auto copy = with( next, w.step[ k]);
               run( next, k + 1, served, std::move( copy), progress + 1);
            }
            else
               fail( progress, error, w.step[ k]);
         }
         for( std::size_t s = 0; s < served.size(); ++s)
         {
            auto waits = std::find( model.waiting.begin(), model.waiting.end(), served[ s]);
            if( waits == model.waiting.end()) continue;
            auto next = model;
            auto error = serve( next, served[ s]);
            if( ! error.empty()) { if( k == w.step.size()) fail( progress, error, served[ s]); continue;}
            next.waiting.erase( next.waiting.begin() + ( waits - model.waiting.begin()));
            auto rest = served;
            rest.erase( rest.begin() + s);
            auto copy = with( next, served[ s]);
            run( next, k, std::move( rest), std::move( copy), progress + 1);
         }
         if( k == w.step.size())
         {
            // a request that waited is over when it has been answered
            for( auto i : model.waiting) if( w.requests[ i].answered && std::find( served.begin(), served.end(), i) == served.end()) return;
            if( std::any_of( served.begin(), served.end(), [&]( int i){ return std::find( model.waiting.begin(), model.waiting.end(), i) != model.waiting.end();})) return;
            auto now = vk::kernel::now();
            for( auto i : model.waiting)
               for( auto& m : model.messages)
                  if( surely( w.requests[ i], m, now)) { fail( progress, "a request waits though a message is available to it", i); return;}
            accepted.push_back( { model, std::move( snapshots)});
         }
      }
   };

   void quiescent()
   {
      vk::evaluated( 3);
      // waiting requests that got an answer
      std::vector< int> served;
      auto consider = [&]( int i)
      {
         auto& r = w.requests[ i];
         if( r.kind == Kind::dequeue && r.block && r.answered)
         {
            if( r.code == Code::ok) served.push_back( i);
            else violation( "a waiting request is answered without a message", describe( r));
         }
      };
      for( auto i : w.model.waiting) consider( i);
      for( auto i : w.step) consider( i);

      Search search;
      search.run( w.model, 0, served, {}, 0);
      // blocking requests of this step can also be served at once, by apply: those are then not waiting
      if( search.accepted.empty())
         violation( search.error.empty() ? "the answers fit no order of the operations" : search.error, search.detail);
      vk::cover( search.accepted.size() == 1 ? "one explanation" : "several explanations");

      auto& outcome = search.accepted.front();

      // what was on disk at each moment
      if( w.max_crashes)
      {
         auto base = w.history.size();
         record();
         std::string seen; const void* seen_log = nullptr; const void* seen_db = nullptr;
         for( auto& written : w.written)
         {
            if( written.image.log.get() != seen_log || written.image.database.get() != seen_db || seen_log == nullptr)
            {
               seen = image_rows( written.image);
               seen_log = written.image.log.get(); seen_db = written.image.database.get();
            }
            vk::evaluated();
            bool fine = false;
            int matching = -1;
            for( auto& accepted : search.accepted)
            {
               int lower = 0;
               for( auto& [ request, index] : w.effect) if( w.requests[ request].hard) lower = std::max( lower, index);
               for( std::size_t s = 0; s < accepted.snapshots.size(); ++s)
                  if( std::find( written.answered.begin(), written.answered.end(), accepted.snapshots[ s].first) != written.answered.end())
                     lower = std::max( lower, int( base + s));
               for( int j = base + accepted.snapshots.size() - 1; j >= lower && ! fine; --j)
                  if( ( j < int( base) ? w.history[ j].rows : accepted.snapshots[ j - base].second.rows) == seen) { fine = true; matching = j;}
               if( fine) break;
            }
            if( ! fine)
            {
               std::string text = "on disk:\n" + seen + "the states with all that has been answered (";
               for( auto i : written.answered) text += " R" + std::to_string( i);
               text += "):\n";
               for( auto& s : outcome.snapshots) text += "after R" + std::to_string( s.first) + ":\n" + s.second.rows;
               violation( "what is on disk does not agree with what has been answered", text);
            }
         }
         w.last = w.written.back().image;
         w.last_rows = seen;
         for( std::size_t s = 0; s < outcome.snapshots.size(); ++s)
         {
            w.effect[ outcome.snapshots[ s].first] = base + s;
            w.history.push_back( outcome.snapshots[ s].second);
         }
         w.written.clear();
      }

      w.model = outcome.model;
      w.step.clear();

      // a message that becomes available later must wake those who wait for it
      auto now = vk::kernel::now();
      for( auto i : w.model.waiting)
         for( auto m : w.model.messages)
         {
            auto& r = w.requests[ i];
            if( m.at != At::ready || m.queue != r.queue || m.available < now || r.selected) continue;
            if( ! r.properties.empty() && r.properties != m.properties) continue;
            vk::evaluated();
            if( vk::kernel::timer() < 0) violation( "a request waits for a message that becomes available later, but no timer is set", describe( r));
            if( vk::kernel::timer() > m.available + 3 * ms) violation( "the timer is set beyond the time when a waited for message becomes available", describe( r) + " by " + std::to_string( vk::kernel::timer() - m.available));
         }
   }

   // ------------------------------------------------------------ observation

   void ask( platform::time::point::type last)
   {
      auto q = w.queues.front();
      qg::message::browse::Request request{ w.observer->handle};
      request.queue = cc::strong::queue::id{ q};
      request.last = last;
      request.correlation = cc::strong::correlation::id{ vkc::uuid( 0x45, 1)};
      vkc::to_self( request);
   }

   std::vector< int> all_queues()
   {
      std::vector< int> result;
      for( auto q : w.queues) { result.push_back( q - 1); result.push_back( q);}
      return result;
   }

   void observe()
   {
      w.observing = true;
      auto& o = *w.observer;
      qg::state::Request state{ o.handle};
      state.correlation = cc::strong::correlation::id{ vkc::uuid( 0x45, 2)};
      vkc::to_self( state);
      for( auto q : all_queues())
      {
         qg::message::meta::Request meta{ o.handle};
         meta.correlation = cc::strong::correlation::id{ vkc::uuid( 0x46, q)};
         meta.qid = cc::strong::queue::id{ q};
         vkc::to_self( meta);
      }
      qg::message::peek::Request peek{ o.handle};
      peek.correlation = cc::strong::correlation::id{ vkc::uuid( 0x45, 3)};
      for( auto& m : w.model.messages) peek.ids.push_back( m.id);
      vkc::to_self( peek);
      ask( {});
   }

   void observed()
   {
      vk::evaluated( 6);
      auto now = vk::kernel::now();
      if( w.states.size() != 1 || w.metas.size() != all_queues().size() || ! w.browse_done) violation( "a question about the state is not answered");
      auto ns = []( auto point){ return std::int64_t( std::chrono::duration_cast< std::chrono::nanoseconds>( point.time_since_epoch()).count());};
      std::size_t present = 0;
      std::int64_t total = 0;
      for( auto& m : w.model.messages)
      {
         auto found = std::find_if( w.meta.begin(), w.meta.end(), [&]( auto& x){ return x.id == m.id && m.at != At::gone;});
         if( m.at == At::gone) continue;
         ++present;
         total += m.payload.size();
         if( found == w.meta.end()) violation( "a message is lost", hex( m.id) + "\n" + dump( w.model));
         auto& x = *found;
         if( x.queue.value() != m.queue || x.origin.value() != m.origin) violation( "a message is on the wrong queue", hex( m.id) + " on " + std::to_string( x.queue.value()));
         if( int( x.state) != int( m.at)) violation( "a message has the wrong state", hex( m.id) + " is " + vkc::text( int( x.state)) + " instead of " + name( m.at));
         if( x.redelivered != m.redelivered) violation( "the redelivery count is wrong", hex( m.id) + " " + std::to_string( x.redelivered) + " instead of " + std::to_string( m.redelivered));
         if( x.properties != m.properties || x.reply != m.reply || x.type != m.type || x.size != std::int64_t( m.payload.size())) violation( "a message is changed", hex( m.id));
         auto available = ns( x.available);
         if( m.at != At::taken && std::abs( available - m.available) > ( m.loose ? 3 * ms : 2 * us)) violation( "a message becomes available at the wrong time", hex( m.id) + " at " + std::to_string( available) + " instead of " + std::to_string( m.available));
         auto peeked = std::find_if( w.peeked.begin(), w.peeked.end(), [&]( auto& p){ return p.id == m.id;});
         if( peeked == w.peeked.end()) violation( "a message can not be peeked", hex( m.id));
         if( peeked->payload.data != m.payload || peeked->payload.type != m.type || peeked->attributes.properties != m.properties || peeked->attributes.reply != m.reply) violation( "a message is changed", hex( m.id));
      }
      if( present != w.meta.size())
      {
         std::string text;
         for( auto& x : w.meta) text += vkc::text( x) + "\n";
         violation( "there are messages that should not be there", text + dump( w.model));
      }
      auto& state = w.states[ 0];
      for( auto q : all_queues())
      {
         long count = 0, size = 0, uncommitted = 0;
         for( auto& m : w.model.messages)
            if( m.queue == q)
            {
               if( m.at == At::ready || m.at == At::taken) { ++count; size += m.payload.size();}
               if( m.at == At::added) ++uncommitted;
            }
         auto found = std::find_if( state.queues.begin(), state.queues.end(), [&]( auto& x){ return x.id.value() == q;});
         if( found == state.queues.end()) violation( "a queue is missing");
         auto& metric = found->metric;
         if( metric.count != count || metric.size != size || metric.uncommitted != uncommitted)
            violation( "the figures do not agree with the contents", "q" + std::to_string( q) + " count " + std::to_string( metric.count) + "/" + std::to_string( count) + " size " + std::to_string( metric.size) + "/" + std::to_string( size) + " uncommitted " + std::to_string( metric.uncommitted) + "/" + std::to_string( uncommitted) + "\n" + dump( w.model));
      }
      if( state.size.current != total) violation( "the size of the group does not agree with the contents", std::to_string( state.size.current) + "/" + std::to_string( total) + "\n" + dump( w.model));

      std::vector< cc::Uuid> expected, got;
      bool loose = false;
      for( auto& m : w.model.messages)
         if( m.at == At::ready && m.queue == w.queues.front())
         {
            if( m.available >= now - 2 * ms && m.available < now + 2 * ms) loose = true;
            if( m.available < now) expected.push_back( m.id);
         }
      for( auto& b : w.browsed) got.push_back( b.id);
      if( ! loose && expected != got) violation( "browse does not give the available messages in order", std::to_string( got.size()) + "/" + std::to_string( expected.size()) + "\n" + dump( w.model));
      vk::finish( "observed");
   }

   // ------------------------------------------------------------ fingerprint

   std::string fingerprint()
   {
      std::ostringstream out;
      out << w.scenario << '\n' << dump( w.model) << "disk\n" << w.last_rows;
      out << "bounds " << w.enqueues << ' ' << w.dequeues << ' ' << w.batches << ' ' << w.crashes << ' ' << w.forgets << ' ' << w.deaths << ' ' << w.times << ' ' << w.admin << ' ' << w.odd << '\n';
      for( auto& [ t, s] : w.trid_state) out << 'T' << t << s;
      for( auto t : w.involved) out << 'I' << t;
      out << '\n';
      if( sut_state)
      {
         auto insight = [&out]( auto& state)
         {
            auto part = [&out]( auto& value){ out << vkc::text( value) << '\n';};
            part( state);
            if constexpr( requires{ state.pending;}) part( state.pending);
            if constexpr( requires{ state.involved;}) part( state.involved);
            if constexpr( requires{ state.size;}) part( state.size);
            if constexpr( requires{ state.multiplex;}) part( state.multiplex);
         };
         insight( *sut_state);
      }
      out << vk::kernel::state( vk::kernel::now());
      return vk::canonical( out.str());
   }

   // ------------------------------------------------------------ actions

   using Actions = std::vector< std::pair< std::string, std::function< void()>>>;

   template< typename M>
   void send( int i, M message)
   {
      message.correlation = cc::strong::correlation::id{ vkc::uuid( 0x40, i)};
      message.process = w.requests[ i].client->handle;
      vkc::to_self( message);
   }

   int add_request( Request r)
   {
      int i = w.requests.size();
      vk::kernel::advance( 5 * us);
      r.when = vk::kernel::now();
      w.requests.push_back( r);
      w.step.push_back( i);
      connect_client( i);
      return i;
   }

   void enqueue( Request r)
   {
      r.kind = Kind::enqueue;
      ++w.enqueues;
      auto i = add_request( r);
      if( r.trid >= 0) w.trid_state[ r.trid] = std::max( 1, w.trid_state[ r.trid]);
      qg::enqueue::Request m;
      if( r.trid >= 0) m.trid = trid_of( r.trid);
      m.name = r.unknown ? "unknown" : ( error_queue( r.queue) ? "q" + std::to_string( r.queue + 1) + ".error" : "q" + std::to_string( r.queue));
      if( ! r.named && ! r.unknown) m.queue = cc::strong::queue::id{ r.queue};
      m.message.id = r.selected;
      m.message.attributes.properties = r.properties;
      m.message.attributes.reply = "reply-" + std::to_string( r.size);
      m.message.attributes.available = platform::time::point::type{ std::chrono::duration_cast< platform::time::point::type::duration>( std::chrono::nanoseconds{ r.available})};
      m.message.payload.type = "X_OCTET/";
      m.message.payload.data.resize( r.size);
      for( int k = 0; k < r.size; ++k) m.message.payload.data[ k] = std::byte( k * 7 + i + 1);
      send( i, m);
   }

   void dequeue( Request r)
   {
      r.kind = Kind::dequeue;
      ++w.dequeues;
      auto i = add_request( r);
      if( r.trid >= 0) w.trid_state[ r.trid] = std::max( 1, w.trid_state[ r.trid]);
      qg::dequeue::Request m;
      if( r.trid >= 0) m.trid = trid_of( r.trid);
      m.name = r.unknown ? "unknown" : ( error_queue( r.queue) ? "q" + std::to_string( r.queue + 1) + ".error" : "q" + std::to_string( r.queue));
      if( ! r.named && ! r.unknown) m.queue = cc::strong::queue::id{ r.queue};
      m.selector.id = r.selected;
      m.selector.properties = r.properties;
      m.block = r.block;
      send( i, m);
   }

   template< typename M>
   void transaction( Kind kind, int trid)
   {
      Request r; r.kind = kind; r.trid = trid;
      auto i = add_request( r);
      w.trid_state[ trid] = kind == Kind::prepare ? 2 : 3;
      M m;
      m.trid = trid_of( trid);
      m.resource = cc::strong::resource::id{ 77};
      send( i, m);
   }

   std::jmp_buf crashed;

   Actions actions( bool held)
   {
      Actions result;
      auto add = [&result]( std::string name, std::function< void()> f){ result.emplace_back( std::move( name), std::move( f));};

      std::vector< int> trids{ -1};
      if( ! w.plain) trids.clear();
      for( int t = 0; t < w.max_trids; ++t)
      {
         if( w.trid_state[ t] >= 2) continue;
         trids.push_back( t);
         if( w.trid_state[ t] == 0) break; // the new ones are alike
      }
      auto of = []( int t){ return t >= 0 ? " in T" + std::to_string( t) : std::string{};};

      if( w.enqueues < w.max_enqueues)
         for( auto q : w.queues) for( auto t : trids) for( auto size : w.sizes)
         {
            auto text = "enqueue q" + std::to_string( q) + of( t) + ( w.sizes.size() > 1 ? " size " + std::to_string( size) : "");
            Request r; r.queue = q; r.trid = t; r.size = size; r.named = true;
            add( text, [=]{ auto x = r; x.selected = vkc::uuid( 0x70, w.requests.size()); enqueue( x);});
            if( w.properties) add( text + " properties A", [=]{ auto x = r; x.properties = "A"; enqueue( x);});
            if( w.future) add( text + " available in 10 ms", [=]{ auto x = r; x.available = ( vk::kernel::now() / us + 10'000) * us; x.selected = vkc::uuid( 0x70, w.requests.size()); enqueue( x);});
            if( w.odd < w.max_odd)
            {
               if( t < 0) add( "enqueue to unknown queue", [=]{ ++w.odd; auto x = r; x.unknown = true; enqueue( x);});
               if( ! w.model.messages.empty()) add( text + " with a used identity", [=]{ ++w.odd; auto x = r; x.selected = w.model.messages.back().id; enqueue( x);});
            }
         }

      if( w.dequeues < w.max_dequeues)
      {
         auto from = w.error_queue ? all_queues() : w.queues;
         for( auto q : from) for( auto t : trids) for( bool block : { false, true})
         {
            if( block ? ! w.blocking : ! w.nonblocking) continue;
            auto text = "dequeue q" + std::to_string( q) + of( t) + ( block ? " blocking" : "");
            Request r; r.queue = q; r.trid = t; r.block = block; r.named = block;
            add( text, [=]{ dequeue( r);});
            if( w.properties) add( text + " properties A", [=]{ auto x = r; x.properties = "A"; dequeue( x);});
            if( w.by_id) for( auto& m : w.model.messages) if( m.at != At::gone && m.queue == q)
            {
               auto id = m.id;
               add( text + " by id " + hex( id).substr( 0, 10), [=]{ auto x = r; x.selected = id; dequeue( x);});
            }
         }
         if( w.odd < w.max_odd) add( "dequeue from unknown queue", [=]{ ++w.odd; Request x; x.unknown = true; x.queue = 2; dequeue( x);});
      }

      for( int t = 0; t < w.max_trids; ++t)
      {
         auto s = w.trid_state[ t];
         if( s == 0 || s == 3) continue;
         // a transaction ends when its requests are answered
         bool busy = false;
         for( auto i : w.model.waiting) busy = busy || w.requests[ i].trid == t;
         for( auto i : w.step) busy = busy || w.requests[ i].trid == t;
         if( s == 1 && w.prepare && ! held) add( "prepare T" + std::to_string( t), [t]{ transaction< msg::transaction::resource::prepare::Request>( Kind::prepare, t);});
         if( ! busy) add( "commit T" + std::to_string( t), [t]{ transaction< msg::transaction::resource::commit::Request>( Kind::commit, t);});
         add( "rollback T" + std::to_string( t), [t]{ transaction< msg::transaction::resource::rollback::Request>( Kind::rollback, t);});
         if( w.admin_recovery && w.admin < w.max_admin && ! busy)
            for( bool commit : { true, false})
               add( std::string( "recovery ") + ( commit ? "commit" : "rollback") + " T" + std::to_string( t), [t, commit]
               {
                  ++w.admin;
                  Request r; r.kind = Kind::recovery; r.trid = t; r.queue = w.queues.front(); r.commit = commit;
                  auto i = add_request( r);
                  w.trid_state[ t] = 3;
                  qg::message::recovery::Request m;
                  m.queue = cc::strong::queue::id{ r.queue};
                  m.gtrids.emplace_back( cc::transaction::id::range::global( trid_of( t)));
                  m.directive = commit ? decltype( m.directive)::commit : decltype( m.directive)::rollback;
                  send( i, m);
               });
      }

      if( w.forgets < w.max_forgets)
      {
         auto candidates = w.model.waiting;
         for( auto i : w.step) if( w.requests[ i].kind == Kind::dequeue && w.requests[ i].block) candidates.push_back( i);
         // also one that has its answer
         for( int i = int( w.requests.size()) - 1; i >= 0; --i) if( w.requests[ i].kind == Kind::dequeue && w.requests[ i].block && w.requests[ i].answered && w.requests[ i].client->alive) { candidates.push_back( i); break;}
         for( auto i : candidates) if( w.requests[ i].client->alive)
            add( "forget R" + std::to_string( i), [i]
            {
               ++w.forgets;
               Request r; r.kind = Kind::forget; r.target = i; r.queue = w.requests[ i].queue;
               int k = w.requests.size();
               vk::kernel::advance( 5 * us);
               w.requests.push_back( r);
               w.step.push_back( k);
               w.requests[ k].client = w.requests[ i].client;
               qg::dequeue::forget::Request m{ r.client ? r.client->handle : w.requests[ i].client->handle};
               m.process = w.requests[ i].client->handle;
               m.correlation = cc::strong::correlation::id{ vkc::uuid( 0x40, i)};
               m.queue = cc::strong::queue::id{ r.queue};
               vkc::to_self( m);
            });
      }

      if( w.deaths < w.max_deaths && ! ( held && ! w.step.empty()))
         for( auto i : w.model.waiting)
            for( bool process : { true, false})
               add( std::string( process ? "process" : "ipc") + " of R" + std::to_string( i) + " dies", [i, process]
               {
                  ++w.deaths;
                  Request r; r.kind = Kind::death; r.target = i;
                  vk::kernel::advance( 5 * us);
                  auto handle = w.requests[ i].client->handle;
                  r.client = w.requests[ i].client;
                  r.client->die();
                  w.step.push_back( w.requests.size());
                  w.requests.push_back( r);
                  if( process)
                  {
                     msg::event::process::Exit event;
                     event.state.pid = handle.pid;
                     event.state.reason = decltype( event.state.reason)::core;
                     vkc::to_self( event);
                  }
                  else
                  {
                     msg::event::ipc::Destroyed event;
                     event.process = handle;
                     vkc::to_self( event);
                  }
               });

      if( w.admin < w.max_admin)
      {
         auto q = w.queues.front();
         auto admin = [q]( Kind kind) { ++w.admin; Request r; r.kind = kind; r.queue = q; return r;};
         if( w.admin_restore) add( "restore q" + std::to_string( q), [=]
         {
            auto i = add_request( admin( Kind::restore));
            qg::queue::restore::Request m; m.queues.push_back( cc::strong::queue::id{ q});
            send( i, m);
         });
         if( w.admin_clear) add( "clear q" + std::to_string( q), [=]
         {
            auto i = add_request( admin( Kind::clear));
            qg::queue::clear::Request m; m.queues.push_back( cc::strong::queue::id{ q});
            send( i, m);
         });
         if( w.admin_remove) for( auto& message : w.model.messages) if( message.at != At::gone && message.queue == q) for( bool force : { false, true})
         {
            auto id = message.id;
            add( std::string( force ? "force " : "") + "remove " + hex( id).substr( 0, 10), [=]
            {
               auto r = admin( Kind::remove); r.selected = id; r.force = force;
               auto i = add_request( r);
               qg::message::remove::Request m; m.queue = cc::strong::queue::id{ q}; m.ids.push_back( id); m.force = force;
               send( i, m);
            });
         }
      }

      if( held) return result;

      if( w.times < w.max_times)
      {
         auto pass = [&]( const std::string& text, std::int64_t until)
         {
            add( text, [until]
            {
               ++w.times;
               Request r; r.kind = Kind::time;
               w.step.push_back( w.requests.size());
               w.requests.push_back( r);
               vk::kernel::advance( std::max< std::int64_t>( 0, until - vk::kernel::now()) + 1);
            });
         };
         auto now = vk::kernel::now();
         std::int64_t next = -1;
         for( auto& m : w.model.messages) if( m.at == At::ready && m.available > now) next = next < 0 ? m.available : std::min( next, m.available);
         if( next > 0) pass( "time passes to the next available message", next + 4 * ms);
         if( vk::kernel::timer() >= 0 && ( next < 0 || vk::kernel::timer() < next - 2 * ms)) pass( "time passes to the timer", vk::kernel::timer() + us);
         if( next > 0 && next - now > 5 * ms) pass( "4 ms pass", now + 4 * ms);
      }

      if( w.batches < w.max_batches)
         add( "two at once", []{ ++w.batches; w.hold = true;});

      if( w.crashes < w.max_crashes)
         add( "crash", []{ std::longjmp( crashed, 1);});
      return result;
   }

   void perform( bool held)
   {
      auto possible = actions( held);
      if( possible.empty()) vk::finish( "nothing left");
      std::vector< std::string> names;
      for( auto& a : possible) names.push_back( a.first);
      auto choice = vk::choose( names, std::to_string( w.depth + 1));
      ++w.depth;
      vk::transition();
      possible[ choice].second();
   }

   void step()
   {
      if( ! w.configured) violation( "the group does not get configured");
      if( w.observing) observed();
      quiescent();

      vk::visit_or_finish( fingerprint(), w.limit - w.depth);
      if( vk::choose( 2, "") == 0) { observe(); return;}
      if( w.depth >= w.limit) vk::finish();

      perform( false);
      if( w.hold)
      {
         w.hold = false;
         perform( true);
         perform( true);
         --w.depth;
      }
   }

   // ------------------------------------------------------------ scenarios

   struct Scenario { std::string name; std::function< void()> setup;};

   std::vector< Scenario> scenarios( const std::string& property)
   {
      std::vector< Scenario> result;
      bool deep = vk::thorough();
      auto add = [&]( std::string name, std::function< void()> f){ result.push_back( { name, f});};

      if( property == "Q01")
      {
         add( "transactions and order", [=]
         {
            w.max_trids = 2; w.max_enqueues = 3; w.max_dequeues = deep ? 4 : 3; w.max_batches = deep ? 1 : 0; w.limit = deep ? 8 : 6; w.retry = 5;
         });
         add( "selectors", [=]
         {
            w.properties = true; w.by_id = true; w.max_trids = 1; w.max_enqueues = 3; w.max_dequeues = deep ? 3 : 2; w.limit = deep ? 7 : 5; w.retry = 5;
         });
         add( "two queues, capacity, mistakes", [=]
         {
            w.queues = { 2, 4}; w.sizes = { 10, 25}; w.capacity = 40; w.max_odd = 1; w.max_trids = 1; w.max_enqueues = 3; w.max_dequeues = 2; w.limit = deep ? 6 : 5; w.retry = 5;
         });
         add( "administration", [=]
         {
            w.max_trids = 1; w.max_enqueues = 3; w.max_dequeues = deep ? 3 : 2; w.admin_clear = w.admin_remove = w.admin_recovery = true; w.max_admin = deep ? 2 : 1; w.limit = deep ? 7 : 6; w.retry = 5;
         });
         add( "large messages, two at once", [=]
         {
            w.sizes = { 40'000}; w.max_trids = 1; w.max_enqueues = 2; w.max_dequeues = 2; w.max_batches = 2; w.limit = 5; w.retry = 5;
         });
      }
      if( property == "Q02")
      {
         add( "crash", [=]
         {
            w.prepare = true; w.max_trids = 1; w.max_enqueues = deep ? 3 : 2; w.max_dequeues = deep ? 3 : 2; w.max_crashes = deep ? 2 : 1; w.limit = deep ? 8 : 6; w.retry = 0;
         });
         add( "crash, two transactions, two at once", [=]
         {
            w.prepare = true; w.plain = false; w.max_trids = 2; w.max_enqueues = 2; w.max_dequeues = 2; w.max_batches = 1; w.max_crashes = 1; w.limit = deep ? 8 : 6; w.retry = 5;
         });
         add( "crash, requests that wait, two at once", [=]
         {
            w.blocking = true; w.nonblocking = false; w.max_trids = 1; w.max_enqueues = 2; w.max_dequeues = 2; w.max_batches = deep ? 2 : 1; w.max_crashes = 1; w.max_forgets = 1; w.limit = deep ? 7 : 5; w.retry = 5;
         });
      }
      if( property == "Q03")
      {
         add( "requests that wait, forgotten and dead", [=]
         {
            w.blocking = true; w.nonblocking = false; w.max_trids = 1; w.max_enqueues = 2; w.max_dequeues = deep ? 4 : 3; w.max_forgets = 1; w.max_deaths = 1; w.max_batches = 1; w.limit = deep ? 7 : 5; w.retry = 5;
         });
         add( "selectors", [=]
         {
            w.blocking = true; w.nonblocking = false; w.properties = true; w.max_trids = deep ? 1 : 0; w.max_enqueues = 3; w.max_dequeues = 3; w.limit = 6; w.max_batches = deep ? 1 : 0; w.retry = 5;
         });
         add( "messages that become available later", [=]
         {
            w.blocking = true; w.nonblocking = false; w.properties = true; w.future = true; w.max_trids = 0; w.max_enqueues = 3; w.max_dequeues = deep ? 3 : 2; w.max_times = deep ? 3 : 2; w.limit = deep ? 7 : 6; w.retry = 5;
         });
         add( "rollback, delay and restore", [=]
         {
            w.blocking = true; w.error_queue = true; w.admin_restore = true; w.max_admin = 1; w.delay = 10 * ms; w.max_trids = 2; w.max_enqueues = deep ? 2 : 1; w.max_dequeues = 3; w.max_times = 2; w.limit = deep ? 8 : 7; w.retry = 0;
         });
         add( "two queues", [=]
         {
            w.queues = { 2, 4}; w.blocking = true; w.nonblocking = false; w.future = true; w.max_trids = 0; w.max_enqueues = 2; w.max_dequeues = 3; w.max_times = 2; w.limit = deep ? 7 : 6; w.retry = 5;
         });
      }
      if( property == "Q04")
      {
         add( "no delay", [=]
         {
            w.plain = deep; w.error_queue = true; w.admin_restore = true; w.max_admin = deep ? 2 : 1; w.max_trids = deep ? 4 : 3; w.max_enqueues = deep ? 2 : 1; w.max_dequeues = 4; w.limit = deep ? 9 : 8; w.retry = 1;
         });
         add( "two messages, selectors", [=]
         {
            w.error_queue = true; w.by_id = true; w.admin_restore = true; w.max_admin = 1; w.max_trids = 2; w.max_enqueues = 2; w.max_dequeues = deep ? 4 : 3; w.limit = deep ? 8 : 6; w.retry = 0;
         });
         add( "delay", [=]
         {
            w.plain = false; w.error_queue = true; w.by_id = deep; w.delay = 10 * ms; w.max_trids = 3; w.max_enqueues = 1; w.max_dequeues = 4; w.max_times = 3; w.limit = deep ? 10 : 9; w.retry = 1;
         });
         add( "administration", [=]
         {
            w.plain = false; w.error_queue = true; w.admin_restore = w.admin_remove = w.admin_clear = w.admin_recovery = true; w.max_admin = 2; w.max_trids = 2; w.max_enqueues = 2; w.max_dequeues = 2; w.limit = deep ? 8 : 7; w.retry = 0;
         });
      }
      return result;
   }

   void body( const std::string& property)
   {
      auto list = scenarios( property);
      std::vector< std::string> names;
      for( auto& s : list) names.push_back( s.name);
      auto chosen = vk::choose( names, "scenario");
      w.scenario = names[ chosen];

      vkfs::install();
      vkc::boot();
      vk::kernel::tick = 1 * us;

      w.qmanager = &vkc::peer( "queue-manager", 0x25, 1);
      vkc::domain().singleton( cc::communication::instance::identity::queue::manager, w.qmanager->handle);
      w.qmanager->on< qg::Connect>( []( auto& message)
      {
         qg::configuration::update::Request request{ w.qmanager->handle};
         request.model.alias = "group";
         request.model.queuebase = database;
         for( auto q : w.queues)
         {
            auto& queue = request.model.queues.emplace_back();
            queue.name = "q" + std::to_string( q);
            queue.retry.count = w.retry;
            queue.retry.delay = std::chrono::duration_cast< platform::time::unit>( std::chrono::nanoseconds{ w.delay});
         }
         if( w.capacity) request.model.capacity = *w.capacity;
         vkc::push( message.process.ipc, request);
      });
      w.qmanager->on< qg::configuration::update::Reply>( []( auto& message)
      {
         for( auto q : w.queues)
         {
            bool found = false;
            for( auto& x : message.queues) found = found || ( x.id.value() == q && x.name == "q" + std::to_string( q));
            if( ! found) vk::broken( "unexpected queue ids " + vkc::text( message.queues));
         }
         w.configured = true;
      });

      w.tm = &vkc::peer( "tm", 0x24, 1);
      w.tm->other = []( auto&){};
      w.tm->on< msg::transaction::resource::external::Involved>( []( auto& m)
      {
         for( int t = 0; t < w.max_trids; ++t) if( m.trid == trid_of( t)) w.involved.insert( t);
      });
      vkc::domain().singleton( cc::communication::instance::identity::transaction::manager, w.tm->handle);

      w.observer = &vkc::peer( "observer", 0x26, 1);
      w.observer->on< qg::state::Reply>( []( auto& m){ w.states.push_back( m);});
      w.observer->on< qg::message::meta::Reply>( []( auto& m)
      {
         int q = m.correlation.value().get()[ 2];
         w.metas.insert( q);
         for( auto& x : m.messages) { if( x.queue.value() != q) violation( "a question about one queue gives messages of another"); w.meta.push_back( x);}
      });
      w.observer->on< qg::message::peek::Reply>( []( auto& m){ w.peeked = m.messages;});
      w.observer->on< qg::message::browse::Reply>( []( auto& m)
      {
         if( ! m.message) { w.browse_done = true; return;}
         w.browsed.push_back( *m.message);
         if( w.browsed.size() > 10) violation( "browse does not end");
         ask( m.message->timestamp);
      });

      list[ chosen].setup();
      if( w.max_crashes) vkfs::on_commit = []( auto&){ record();};
      w.history.push_back( { "", {}});

      vk::kernel::idle = []( auto&, auto&){ step();};

      if( setjmp( crashed))
      {
         ++w.crashes;
         vkfs::crash();
         vk::kernel::crash();
         w.configured = false;
         sut_state = nullptr;
         w.written.clear();
         w.step.clear();
         // what is left is what was on disk
         auto rows = w.last_rows;
         for( int j = int( w.history.size()) - 1; j >= 0; --j)
            if( w.history[ j].rows == rows) { w.model = w.history[ j].model; break;}
         w.model.waiting.clear();
         for( auto& r : w.requests) if( ! r.answered && r.kind != Kind::death && r.kind != Kind::time) r.lost = true;
         w.history = { { rows, w.model}};
         w.effect.clear();
         for( auto& [ t, s] : w.trid_state) if( s == 1) s = 2; // its owner knows that it failed
         w.involved.clear();
         vk::cover( "crash and restart");
         vk::note( "   restarted with\n" + dump( w.model));
      }

      const char* argv[] = { "/nowhere/casual-queue-group", nullptr};
      sut_main( 1, argv);
      violation( "the queue group ended");
   }
}

int main( int argc, char** argv)
{
   return vkc::main( argc, argv, {
      .rule = "from the initial state of each scenario, every sequence of actions (enqueues and dequeues of each kind, inside and outside transactions, prepare, commit, rollback, forget, deaths of clients, time, administration, crash and restart, two messages at once) up to the stated depth is applied to the real casual-queue-group; states are merged when the program's state, the virtual kernel, the disk and the reference model agree",
      .assumptions = { "datagram delivery in order between processes, one message handled at a time (as in casual)", "sqlite runs on an in-memory file system: a crash is a crash of the process, what has been written to a file remains", "each reading of the clock takes a microsecond" },
      }, []( const std::string& property){ body( property);});
}
