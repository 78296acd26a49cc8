//! X01, X04: the transaction context of a process (the TX interface, and a service that is invoked), with
//! resources in the process that answer in every way, and the transaction manager. See DESIGN.md
// has to be before anything that declares namespace common::service::lookup
#include "common/service/conversation/context.h"
#include "vkc.h"

#include "casual/xatmi.h"
#include "casual/tx.h"

#include "common/buffer/pool.h"
#include "common/buffer/type.h"
#include "common/message/service.h"
#include "common/message/conversation.h"
#include "common/message/transaction.h"
#include "common/server/handle/call.h"
#include "common/server/handle/conversation.h"
#include "common/server/service.h"
#include "common/service/call/context.h"
#include "common/transaction/context.h"

// the values of the standards: casual's internal headers undefine the names
namespace tx
{
   constexpr int ok = 0, outside = -1, rollback = -2, mixed = -3, hazard = -4, protocol = -5, error = -6, fail = -7, invalid = -8, committed = -9, no_begin = -100;
}
namespace xa
{
   constexpr int ok = 0, rb_rollback = 100, rb_deadlock = 102, heuristic_mixed = 5, heuristic_commit = 7, rmerr = -3, nota = -4, proto = -6, rmfail = -7, dupid = -8;
   constexpr long one_phase = 0x40000000L, resume = 0x08000000L, success = 0x04000000L, suspend = 0x02000000L, join = 0x00200000L, fail = 0x20000000L;
}
constexpr long TPNOTRAN_ = 0x00000008, TPNOREPLY_ = 0x00000004;

namespace cc = casual::common;

namespace
{
   namespace sm = cc::message::service;
   namespace txm = cc::message::transaction;
   namespace conv = cc::message::conversation;
   using Code = cc::code::xatmi;

   std::string history;    //!< what is done with the resources and the transaction manager in this operation
   void note( const std::string& text) { history += ( history.empty() ? "" : ", ") + text;}
   [[noreturn]] void violation( const std::string& kind, const std::string& text = {}) { vk::violation( kind, text + " [" + history + "]");}

   cc::buffer::Payload payload( const std::string& text)
   {
      auto data = reinterpret_cast< const std::byte*>( text.data());
      return cc::buffer::Payload{ "X_OCTET/", casual::platform::binary::type( data, data + text.size() + 1)};
   }
   std::string text( const cc::buffer::Payload& value)
   {
      return value.data.empty() ? "" : std::string( reinterpret_cast< const char*>( value.data.data()));
   }

   // =================================================================================== model

   struct Branch
   {
      enum class State { none, elsewhere, active, suspended, idle, committed, rolledback, unknown} state = State::none;
      bool fault{};              //!< the resource has given an error for it
      bool told{};               //!< the transaction manager is responsible
      bool rollback_only{};
      bool mentioned{};          //!< the transaction manager is told that it might be involved
      bool live() const { return state == State::active || state == State::suspended || state == State::idle;}
   };

   struct Resource
   {
      std::string name;
      bool dynamic{};
      std::map< int, Branch> branches;       //!< by number of transaction
   };

   struct Transaction
   {
      int number{};
      bool foreign{};            //!< owned by another process
      bool suspended{};
      bool external{};           //!< other processes are involved
      enum class State { active, timeout, rollback} state = State::active;
      int pending{};
      // how it ended
      bool end_failed{};
      enum class Told { no, commit, rolledback, hazard, rollback, rollback_hazard} told = Told::no;
   };

   struct World
   {
      std::vector< Resource> resources;
      std::vector< XID> xids;                //!< number of a transaction is the index
      std::vector< Transaction> stack;
      std::map< int, Transaction> completing;
      int control = 0;                       //!< 0 unchained, 1 chained, 2 stacked
      bool logged{};
      bool returns{};                        //!< the commit return is changed
      int faults{};                          //!< left
      int outcomes{};                        //!< left: other than the good
      bool fault{};                          //!< in this operation
      int begun{};
      vkc::Peer* server{};
      std::function< void( const sm::call::callee::Request&)> called;
      // X04
      int calls{};                           //!< requests
      int caller_transaction{};              //!< number, 0 if none
   };
   World* world{};
   std::function< void( const sm::call::callee::Request&)> forward;   //!< a request that is not a call

   int number_of( const XID& xid)
   {
      auto& w = *world;
      for( std::size_t i = 0; i < w.xids.size(); ++i)
         if( std::memcmp( w.xids[ i].data, xid.data, xid.gtrid_length + xid.bqual_length) == 0 && w.xids[ i].gtrid_length == xid.gtrid_length && w.xids[ i].bqual_length == xid.bqual_length)
            return int( i);
      w.xids.push_back( xid);
      return int( w.xids.size()) - 1;
   }

   //! a transaction, or a branch of one, that another process owns
   bool foreign( int number)
   {
      auto& w = *world;
      if( w.caller_transaction == 0) return false;
      auto& f = w.xids.at( w.caller_transaction);
      auto& x = w.xids.at( number);
      return x.gtrid_length == f.gtrid_length && std::memcmp( x.data, f.data, f.gtrid_length) == 0;
   }

   Transaction* current()
   {
      auto& w = *world;
      if( w.stack.empty() || w.stack.back().suspended) return nullptr;
      return &w.stack.back();
   }

   bool held( int number)
   {
      return std::any_of( world->stack.begin(), world->stack.end(), [&]( auto& t){ return t.number == number;});
   }

   // =================================================================================== resources

   int fault( const std::string& what, std::vector< std::pair< std::string, int>> faults)
   {
      auto& w = *world;
      if( w.faults <= 0 || faults.empty()) return xa::ok;
      std::vector< std::string> names{ "ok"};
      for( auto& f : faults) names.push_back( f.first);
      auto index = vk::choose( names, what);
      if( index == 0) return xa::ok;
      --w.faults;
      w.fault = true;
      note( what + " gives " + names[ index]);
      vk::cover( "fault " + what.substr( 0, what.find( ' ')));
      return faults[ index - 1].second;
   }

   namespace rm
   {
      using State = Branch::State;
      Resource& get( int id) { return world->resources.at( id - 1);}

      int open( const char*, int, long) { return xa::ok;}
      int close( const char*, int, long) { return xa::ok;}

      int start( XID* xid, int id, long flags)
      {
         auto& r = get( id);
         auto number = number_of( *xid);
         auto& b = r.branches[ number];
         auto what = std::string( flags & xa::resume ? "xa_start(resume)" : flags & xa::join ? "xa_start(join)" : "xa_start") + " " + r.name + " t" + std::to_string( number);
         vk::evaluated();
         if( r.dynamic) violation( "a resource that registers by itself is started", what);
         for( auto& [ other, branch] : r.branches)
            if( branch.state == State::active) violation( "a resource is started when it is associated with a transaction", what + ", associated with t" + std::to_string( other));
         if( flags & xa::resume)
         {
            if( b.state != State::suspended)
            {
               if( b.fault) return xa::proto;
               violation( "a resource that is not suspended is resumed", what);
            }
         }
         else if( flags & xa::join)
         {
            if( b.state != State::elsewhere && b.state != State::idle) violation( "a resource that does not know the transaction is joined", what);
         }
         else if( b.state == State::elsewhere)
         {
            if( b.mentioned) violation( "a resource that knows the transaction is started without join", what);
            note( what + " gives XAER_DUPID");
            b.mentioned = true;
            return xa::dupid;
         }
         else if( b.state != State::none)
         {
            violation( "a resource is started twice with a transaction", what);
         }
         std::vector< std::pair< std::string, int>> answers{ { "XAER_RMERR", xa::rmerr}, { "XA_RBROLLBACK", xa::rb_rollback}};
         if( vk::thorough()) answers.push_back( { "XAER_RMFAIL", xa::rmfail});
         auto code = fault( what, answers);
         if( code == xa::ok) { note( what); b.state = State::active;}
         else
         {
            if( code == xa::rmfail && b.state == State::none) return code;    // tried again after it is opened
            b.fault = true;
            if( code == xa::rb_rollback && ( flags & xa::resume)) { b.rollback_only = true; b.state = State::idle;}
         }
         return code;
      }

      int end( XID* xid, int id, long flags)
      {
         auto& r = get( id);
         auto number = number_of( *xid);
         auto& b = r.branches[ number];
         auto what = std::string( flags & xa::suspend ? "xa_end(suspend)" : flags & xa::fail ? "xa_end(fail)" : "xa_end") + " " + r.name + " t" + std::to_string( number);
         vk::evaluated();
         bool valid = b.state == State::active || ( b.state == State::suspended && ! ( flags & xa::suspend));
         if( ! valid)
         {
            if( b.fault) return xa::proto;
            violation( "a resource is ended when it is not associated with the transaction", what);
         }
         std::vector< std::pair< std::string, int>> answers{ { "XAER_RMERR", xa::rmerr}, { "XA_RBDEADLOCK", xa::rb_deadlock}};
         auto code = fault( what, answers);
         if( code == xa::ok) { note( what); b.state = flags & xa::suspend ? State::suspended : State::idle;}
         else
         {
            b.fault = true;
            b.state = State::idle;
            b.rollback_only = true;
         }
         return code;
      }

      int commit( XID* xid, int id, long flags)
      {
         auto& r = get( id);
         auto number = number_of( *xid);
         auto& b = r.branches[ number];
         auto what = "xa_commit " + r.name + " t" + std::to_string( number);
         vk::evaluated();
         if( foreign( number)) violation( "a resource is committed although another process owns the transaction", what);
         if( b.state != State::idle) violation( "a resource is committed when it is not ended, or is already done", what);
         if( ! ( flags & xa::one_phase)) violation( "a resource that is not prepared is committed", what);
         auto t = world->completing.find( number);
         if( t == world->completing.end()) violation( "a resource is committed when the transaction is not", what);
         if( t->second.external) violation( "a resource is committed although others are involved in the transaction", what);
         if( t->second.state != Transaction::State::active) violation( "a resource is committed although the transaction is rollback only", what);
         for( auto& o : world->resources)
            if( &o != &r && o.branches.count( number) && o.branches[ number].live()) violation( "a resource is committed in one phase although another is involved", what);
         if( b.rollback_only)
         {
            note( what + " gives XA_RBDEADLOCK");
            b.state = State::rolledback;
            return xa::rb_deadlock;
         }
         auto code = fault( what, { { "XA_RBROLLBACK", xa::rb_rollback}, { "XA_HEURMIX", xa::heuristic_mixed}, { "XAER_RMERR", xa::rmerr}});
         if( code == xa::ok) { note( what); b.state = State::committed;}
         else
         {
            b.fault = true;
            b.state = code == xa::heuristic_mixed ? State::unknown : State::rolledback;
         }
         return code;
      }

      int rollback( XID* xid, int id, long)
      {
         auto& r = get( id);
         auto number = number_of( *xid);
         auto& b = r.branches[ number];
         auto what = "xa_rollback " + r.name + " t" + std::to_string( number);
         vk::evaluated();
         if( foreign( number)) violation( "a resource is rolled back although another process owns the transaction", what);
         if( b.state != State::idle)
         {
            if( b.fault || b.state == State::none) { note( what + " gives XAER_NOTA"); return xa::nota;}
            violation( "a resource is rolled back when it is not ended, or is already done", what);
         }
         auto t = world->completing.find( number);
         // (a begin that fails rolls back what it has started)
         if( t == world->completing.end() && held( number)) violation( "a resource is rolled back when the transaction is not", what);
         if( t != world->completing.end() && t->second.external) violation( "a resource is rolled back by itself although others are involved in the transaction", what);
         auto code = fault( what, { { "XA_RBROLLBACK", xa::rb_rollback}, { "XAER_RMERR", xa::rmerr}, { "XA_HEURCOM", xa::heuristic_commit}});
         if( code == xa::ok || code == xa::rb_rollback) { if( code == xa::ok) note( what); b.state = State::rolledback;}
         else
         {
            b.fault = true;
            b.state = code == xa::heuristic_commit ? State::committed : State::unknown;
         }
         return code;
      }

      int prepare( XID*, int, long) { violation( "a resource is prepared by a process that is not the transaction manager");}
      int recover( XID*, long, int, long) { return 0;}
      int forget( XID*, int, long) { return xa::ok;}
      int complete( int*, int*, int, long) { return xa::proto;}

      xa_switch_t fixed{ "fixed", 0, 0, open, close, start, end, rollback, prepare, commit, recover, forget, complete};
      xa_switch_t dynamic{ "dynamic", 1, 0, open, close, start, end, rollback, prepare, commit, recover, forget, complete};
   }

   // =================================================================================== peers

   std::function< void()> waiting;

   //! all that live of `transaction` are told, and are the transaction manager's
   template< typename R>
   void told( const R& request, const std::string& what)
   {
      auto number = number_of( request.trid.xid);
      note( what + " t" + std::to_string( number));
      vk::evaluated();
      for( std::size_t i = 0; i < world->resources.size(); ++i)
      {
         auto& r = world->resources[ i];
         auto& b = r.branches[ number];
         if( b.state == Branch::State::active || ( b.state == Branch::State::suspended)) violation( what + " when a resource is not ended", r.name);
         if( ! b.live()) continue;
         if( std::find( request.involved.begin(), request.involved.end(), cc::strong::resource::id( int( i) + 1)) == request.involved.end())
            violation( what + " without a resource that is involved", r.name);
         b.told = true;
      }
   }

   void boot( int fixed, int dynamic)
   {
      vkc::boot();
      auto& w = *new World;
      world = &w;
      w.xids.emplace_back(); // null
      auto& manager = vkc::peer( "service-manager", 2, 1);
      vkc::domain().singleton( cc::communication::instance::identity::service::manager, manager.handle);
      auto& tm = vkc::peer( "transaction-manager", 3, 1);
      vkc::domain().singleton( cc::communication::instance::identity::transaction::manager, tm.handle);
      auto& server = vkc::peer( "server", 4, 1);
      vkc::peer( "caller", 5, 1);
      w.server = &server;
      vk::kernel::idle = []( const std::vector< int>&, const std::vector< int>&)
      {
         if( waiting) waiting();
         violation( "waits forever");
      };

      for( int i = 0; i < fixed + dynamic; ++i)
      {
         auto& r = w.resources.emplace_back();
         r.name = "r" + std::to_string( i + 1);
         r.dynamic = i >= fixed;
      }

      tm.on< txm::configuration::alias::Request>( [&w]( auto& request)
      {
         auto reply = cc::message::reverse::type( request);
         for( std::size_t i = 0; i < w.resources.size(); ++i)
         {
            auto& resource = reply.resources.emplace_back();
            resource.id = cc::strong::resource::id( int( i) + 1);
            resource.name = w.resources[ i].name;
            resource.key = w.resources[ i].dynamic ? "dynamic" : "fixed";
         }
         vkc::push( request.process.ipc, reply);
      });

      tm.on< txm::resource::involved::Request>( [&w]( auto& request)
      {
         auto number = number_of( request.trid.xid);
         note( "involved t" + std::to_string( number));
         auto reply = cc::message::reverse::type( request);
         for( auto id : request.involved)
         {
            auto& b = w.resources.at( id.value() - 1).branches[ number];
            if( b.state == Branch::State::elsewhere)
            {
               reply.involved.push_back( id);
            }
            b.mentioned = true;
         }
         if( request.reply) vkc::push( request.process.ipc, reply);
      });

      tm.on< txm::commit::Request>( [&w]( auto& request)
      {
         told( request, "commit request");
         auto number = number_of( request.trid.xid);
         auto t = w.completing.find( number);
         if( t == w.completing.end()) violation( "commit request for a transaction that is not committed", "t" + std::to_string( number));
         auto& transaction = t->second;
         if( transaction.foreign) violation( "commit request for a transaction that another process owns");
         if( transaction.state != Transaction::State::active) violation( "commit request for a transaction that is rollback only");
         if( transaction.end_failed) violation( "commit request although a resource has failed");
         using Told = Transaction::Told;
         if( transaction.told != Told::no) violation( "the transaction manager is told twice");
         auto reply = cc::message::reverse::type( request);
         reply.trid = request.trid;
         using Stage = decltype( reply.stage);
         using State = decltype( reply.state);
         reply.stage = Stage::commit;
         reply.state = State::ok;
         transaction.told = Told::commit;
         bool lost = std::any_of( w.resources.begin(), w.resources.end(), [&]( auto& r){ return r.branches[ number].rollback_only;});
         auto outcome = lost ? 2 : w.outcomes > 0 ? vk::choose( { "committed", "prepared, committed", "rolled back", "prepared, hazard"}, "the commit is") : 0;
         if( outcome > 0) --w.outcomes;
         if( outcome == 1 || outcome == 3)
         {
            auto prepared = reply;
            prepared.stage = Stage::prepare;
            vkc::push( request.process.ipc, prepared);
         }
         if( outcome == 2) { reply.stage = Stage::rollback; reply.state = State::rollback; transaction.told = Told::rolledback; note( "rolled back");}
         if( outcome == 3) { reply.state = State::hazard; transaction.told = Told::hazard; note( "hazard");}
         vk::cover( "commit request");
         vkc::push( request.process.ipc, reply);
      });
      tm.on< txm::rollback::Request>( [&w]( auto& request)
      {
         told( request, "rollback request");
         auto number = number_of( request.trid.xid);
         auto t = w.completing.find( number);
         if( t == w.completing.end()) violation( "rollback request for a transaction that is not rolled back", "t" + std::to_string( number));
         auto& transaction = t->second;
         if( transaction.foreign) violation( "rollback request for a transaction that another process owns");
         using Told = Transaction::Told;
         if( transaction.told != Told::no) violation( "the transaction manager is told twice");
         auto reply = cc::message::reverse::type( request);
         reply.trid = request.trid;
         reply.state = decltype( reply.state)::ok;
         transaction.told = Told::rollback;
         if( w.outcomes > 0 && vk::choose( { "rolled back", "hazard"}, "the rollback is"))
         {
            --w.outcomes;
            reply.state = decltype( reply.state)::hazard;
            transaction.told = Told::rollback_hazard;
         }
         vk::cover( "rollback request");
         vkc::push( request.process.ipc, reply);
      });

      manager.on< sm::lookup::Request>( [&w]( auto& request)
      {
         auto reply = cc::message::reverse::type( request);
         reply.service.name = request.requested;
         using State = decltype( reply.state);
         if( request.requested == "absent") reply.state = State::absent;
         else
         {
            reply.state = State::idle;
            reply.process = w.server->handle;
         }
         vkc::push( request.process.ipc, reply);
      });
      manager.on< sm::Advertise>( []( auto&){});
      manager.on< sm::lookup::discard::Request>( []( auto& request){ vkc::push( request.process.ipc, cc::message::reverse::type( request));});
      server.on< sm::call::callee::Request>( [&w]( auto& request){ if( w.called) w.called( request); else if( forward) forward( request); else violation( "unexpected request");});

   }

   std::vector< cc::transaction::resource::Link> links()
   {
      std::vector< cc::transaction::resource::Link> result;
      for( auto& r : world->resources)
         result.emplace_back( r.dynamic ? "dynamic" : "fixed", r.name, r.dynamic ? &rm::dynamic : &rm::fixed);
      return result;
   }

   // =================================================================================== operations

   struct Action { std::string name; std::function< void()> apply;};

   std::string describe( int code) { return std::to_string( code);}

   //! the transaction is done, as seen from the process
   void finished( int number, bool foreign)
   {
      for( auto& r : world->resources)
      {
         auto& b = r.branches[ number];
         auto name = r.name + " t" + std::to_string( number);
         if( b.state == Branch::State::active) violation( "a transaction is done and a resource is still associated with it", name);
         if( b.state == Branch::State::suspended) violation( "a transaction is done and a resource is still suspended in it", name);
         if( b.state == Branch::State::idle && ! b.told && ! foreign) violation( "a transaction is done and a resource is neither committed nor rolled back", name);
      }
   }

   //! what always holds, between the operations
   void check( const std::string& what)
   {
      auto& w = *world;
      auto now = current();
      TXINFO info{};
      auto in = ::tx_info( &info);
      if( ( in == 1) != ( now != nullptr)) violation( now ? "the process is not in a transaction" : "the process is in a transaction that is done or suspended", what);
      if( now)
      {
         if( number_of( info.xid) != now->number) violation( "the process is in another transaction", what + " - in t" + std::to_string( number_of( info.xid)) + ", expected t" + std::to_string( now->number));
         if( int( info.transaction_state) != int( now->state)) violation( "the state of the transaction is another", what + " - " + std::to_string( int( info.transaction_state)) + ", expected " + std::to_string( int( now->state)));
      }
      if( int( info.transaction_control) != ( w.control == 2 ? 42 : w.control)) violation( "the transaction control is another", what);
      for( auto& r : w.resources)
         for( auto& [ number, b] : r.branches)
         {
            auto name = what + " - " + r.name + " t" + std::to_string( number);
            vk::evaluated();
            if( now && now->number == number)
            {
               if( ! r.dynamic && b.state != Branch::State::active && ! b.fault) violation( "the process is in a transaction and a resource is not", name);
            }
            else if( b.state == Branch::State::active) violation( "a resource is associated with a transaction that the process is not in", name);
         }
      for( std::size_t i = 1; i < w.xids.size(); ++i)
         if( ! held( int( i))) finished( int( i), foreign( int( i)));

      // (messages that nobody will receive)
      auto& inbound = cc::communication::ipc::inbound::device();
      inbound.flush();
      if( inbound.size() > 0 && ! cc::service::call::Context::instance().pending()) violation( "a message is left that nobody asks for", what);
   }

   //! a transaction that began
   void began( const char* what)
   {
      auto& w = *world;
      TXINFO info{};
      if( ::tx_info( &info) != 1) violation( "a transaction that began is not the current", what);
      auto known = w.xids.size();
      auto number = number_of( info.xid);
      bool started = std::any_of( w.resources.begin(), w.resources.end(), []( auto& r){ return ! r.dynamic;});
      if( ! started && number < int( known)) violation( "a transaction that began has an identity that is used", what);
      if( held( number)) violation( "a transaction that began is one that is held", what);
      for( auto& r : w.resources)
         if( ! r.dynamic && r.branches[ number].state != Branch::State::active) violation( "a transaction begins although a resource could not start", r.name);
      ++w.begun;
      Transaction t;
      t.number = number;
      w.stack.push_back( t);
   }

   void begin()
   {
      auto& w = *world;
      auto now = current();
      auto result = ::tx_begin();
      auto what = "begin gives " + describe( result);
      vk::evaluated();
      if( now && w.control != 2)
      {
         if( result != tx::protocol) violation( "begin in a transaction", what);
         if( ! history.empty()) violation( "begin that is refused does something", what);
         vk::cover( "begin in transaction");
      }
      else if( result == tx::ok)
      {
         began( "begin");
         vk::cover( "begin");
      }
      else
      {
         if( ! w.fault) violation( "begin fails without reason", what);
         vk::cover( "begin fails");
      }
      check( what);
   }

   //! after commit or rollback
   void next( int result, const std::string& what)
   {
      auto& w = *world;
      bool no_begin = result <= tx::no_begin;
      if( w.control == 1 && ! current())
      {
         TXINFO info{};
         if( ::tx_info( &info) == 1)
         {
            if( no_begin) violation( "a new transaction has begun but it is told that none has", what);
            began( "chained");
            vk::cover( "chained");
         }
         else
         {
            if( ! w.fault) violation( "no new transaction has begun", what);
            if( ! no_begin && result != tx::fail && result != tx::error) violation( "no new transaction has begun, and it is not told", what);
            vk::cover( "no begin");
         }
      }
      else if( no_begin) violation( "told that no transaction has begun when none should", what);
   }

   int basic( int result) { return result > tx::no_begin ? result : result == tx::no_begin ? tx::ok : result - tx::no_begin;}

   struct Outcome { bool committed{}, rolledback{}, unknown{};};
   Outcome outcome( int number)
   {
      auto& w = *world;
      Outcome result;
      auto& t = w.completing.at( number);
      using Told = Transaction::Told;
      if( t.told == Told::commit) result.committed = true;
      if( t.told == Told::rolledback || t.told == Told::rollback) result.rolledback = true;
      if( t.told == Told::hazard || t.told == Told::rollback_hazard) result.unknown = true;
      for( auto& r : w.resources)
      {
         auto& b = r.branches[ number];
         using State = Branch::State;
         if( b.state == State::committed) result.committed = true;
         if( b.state == State::rolledback) result.rolledback = true;
         if( b.state == State::unknown) result.unknown = true;
      }
      return result;
   }

   void completing( Transaction& t)
   {
      auto& w = *world;
      w.completing[ t.number] = t;
   }

   void commit()
   {
      auto& w = *world;
      auto now = current();
      bool refused = ! now || now->foreign || now->state != Transaction::State::active || now->pending;
      if( ! refused) completing( *now);
      auto result = ::tx_commit();
      auto what = "commit gives " + describe( result);
      vk::evaluated();
      if( refused)
      {
         if( result != tx::protocol) violation( "commit that shall be refused", what);
         if( ! history.empty()) violation( "commit that is refused does something", what);
         vk::cover( "commit refused");
         check( what);
         return;
      }
      auto number = now->number;
      w.stack.pop_back();
      auto out = outcome( number);
      auto code = basic( result);
      // (the decision is logged, and what happens then is not waited for)
      bool decided = w.logged && w.completing.at( number).told == Transaction::Told::hazard;
      if( code == tx::ok && ! decided && ( out.rolledback || out.unknown)) violation( "commit is told to succeed, and it is not", what);
      if( code == tx::rollback && ( out.committed || out.unknown)) violation( "commit is told to be rolled back, and it is not", what);
      if( code == tx::protocol || code == tx::invalid) violation( "commit that is valid is refused", what);
      if( ! w.fault && ! out.rolledback && ! out.unknown && code != tx::ok) violation( "commit succeeds, and something else is told", what);
      if( ! w.fault && out.rolledback && ! out.committed && ! out.unknown && code != tx::rollback)
      {
         // (casual tells that a resource that rolls back is a hazard)
         if( code != tx::hazard) violation( "commit is rolled back, and something else is told", what);
      }
      if( w.logged && w.completing.at( number).told == Transaction::Told::hazard && code == tx::ok)
         vk::cover( "commit logged");
      vk::cover( "commit " + describe( code));
      next( result, what);
      check( what);
   }

   void rollback()
   {
      auto& w = *world;
      auto now = current();
      bool refused = ! now || now->foreign;
      if( ! refused) completing( *now);
      auto result = ::tx_rollback();
      auto what = "rollback gives " + describe( result);
      vk::evaluated();
      if( refused)
      {
         if( result != tx::protocol) violation( "rollback that shall be refused", what);
         if( ! history.empty()) violation( "rollback that is refused does something", what);
         vk::cover( "rollback refused");
         check( what);
         return;
      }
      auto number = now->number;
      w.stack.pop_back();
      auto out = outcome( number);
      auto code = basic( result);
      if( out.committed && ! w.fault) violation( "rollback commits", what);
      if( code == tx::ok && ( out.committed || out.unknown)) violation( "rollback is told to succeed, and it is not", what);
      if( code == tx::protocol) violation( "rollback that is valid is refused", what);
      if( ! w.fault && ! out.unknown && code != tx::ok) violation( "rollback succeeds, and something else is told", what);
      vk::cover( "rollback " + describe( code));
      next( result, what);
      check( what);
   }

   void suspend()
   {
      auto& w = *world;
      auto now = current();
      XID xid{};
      auto result = ::tx_suspend( &xid);
      auto what = "suspend gives " + describe( result);
      if( ! now)
      {
         if( result != tx::protocol) violation( "suspend outside of a transaction", what);
      }
      else if( result == tx::ok)
      {
         if( number_of( xid) != now->number) violation( "suspend gives another transaction", what);
         now->suspended = true;
         vk::cover( "suspend");
      }
      else
      {
         if( ! w.fault) violation( "suspend fails without reason", what);
         vk::cover( "suspend fails");
      }
      check( what);
   }

   void resume( int number)
   {
      auto& w = *world;
      auto now = current();
      auto xid = w.xids.at( number);
      auto found = std::find_if( w.stack.begin(), w.stack.end(), [&]( auto& t){ return t.number == number;});
      auto result = ::tx_resume( &xid);
      auto what = "resume t" + std::to_string( number) + " gives " + describe( result);
      if( now || found == w.stack.end() || ! found->suspended)
      {
         if( result != tx::protocol && result != tx::invalid) violation( "resume that shall be refused", what);
         if( ! history.empty()) violation( "resume that is refused does something", what);
         vk::cover( "resume refused");
      }
      else if( result == tx::ok)
      {
         found->suspended = false;
         std::rotate( w.stack.begin(), std::next( found), w.stack.end());
         vk::cover( "resume");
      }
      else
      {
         if( ! w.fault) violation( "resume fails without reason", what);
         vk::cover( "resume fails");
      }
      check( what);
   }

   void control( int value)
   {
      auto& w = *world;
      if( ::tx_set_transaction_control( value == 2 ? 42 : value) != tx::ok) violation( "the transaction control is not set");
      w.control = value;
      check( "control");
   }

   void commit_return( bool logged)
   {
      auto& w = *world;
      if( ::tx_set_commit_return( logged ? 1 : 0) != tx::ok) violation( "the commit return is not set");
      w.logged = logged;
      TXINFO info{};
      ::tx_info( &info);
      if( info.when_return != ( logged ? 1 : 0)) violation( "the commit return is another");
      check( "commit return");
   }

   //! calls a service in another process
   void call( sm::transaction::State state, bool reply, bool early = false)
   {
      auto& w = *world;
      auto now = current();
      int requests = 0;
      w.called = [ &, now]( auto& request)
      {
         ++requests;
         if( cc::predicate::boolean( request.trid) != ( now != nullptr)) violation( "a call is in a transaction when it shall not be, or the reverse");
         if( now && number_of( request.trid.xid) != now->number) violation( "a call is in another transaction");
         if( now && reply)
            for( auto& r : w.resources)
               if( r.branches[ now->number].state == Branch::State::active) violation( "a call is made and a resource is still associated with the transaction", r.name);
         if( ! reply && ! early) return;
         sm::call::Reply answer;
         answer.correlation = request.correlation;
         answer.transaction_state = state;
         answer.code.result = state == sm::transaction::State::ok ? Code::ok : Code::service_fail;
         answer.buffer = payload( "x");
         vkc::push( request.process.ipc, answer);
      };
      auto buffer = ::tpalloc( "X_OCTET", nullptr, 16);
      std::memcpy( buffer, "call", 5);
      long size = 16;
      auto result = reply ? ::tpcall( "served", buffer, 5, &buffer, &size, 0) : ::tpacall( "served", buffer, 5, 0);
      ::tpfree( buffer);
      w.called = nullptr;
      if( requests == 0 && result == -1 && now)
      {
         bool faulty = std::any_of( w.resources.begin(), w.resources.end(), [&]( auto& r){ return r.branches[ now->number].fault;});
         if( ! faulty) violation( "a call fails without reason");
         vk::cover( "call fails");
         check( "call that fails");
         return;
      }
      if( requests != 1) violation( "the service is not called once");
      if( ! reply && result <= 0) violation( "acall fails");
      if( now)
      {
         now->external = true;
         if( ! reply) ++now->pending;
         auto worse = state == sm::transaction::State::timeout ? Transaction::State::timeout : Transaction::State::rollback;
         if( reply && state != sm::transaction::State::ok && now->state < worse) now->state = worse;
      }
      vk::cover( reply ? "call" : "acall");
      check( "call");
   }

   std::vector< Action> operations( int stack, int begins, bool calls)
   {
      auto& w = *world;
      std::vector< Action> result;
      auto add = [&]( std::string name, auto action){ result.push_back( { std::move( name), action});};
      if( current() ? w.control != 2 || ( int( w.stack.size()) < stack && w.begun < begins) : int( w.stack.size()) < stack && w.begun < begins) add( "begin", [](){ begin();});
      add( "commit", [](){ commit();});
      add( "rollback", [](){ rollback();});
      add( "suspend", [](){ suspend();});
      for( auto& t : w.stack) if( t.suspended || current() == &t) add( "resume t" + std::to_string( t.number), [ n = t.number](){ resume( n);});
      for( int c = 0; c < 3; ++c)
         if( w.control != c) add( std::vector< std::string>{ "unchained", "chained", "stacked"}[ c], [c](){ control( c);});
      if( w.returns && ( w.logged || w.outcomes > 0)) add( w.logged ? "commit returns when completed" : "commit returns when logged", [](){ commit_return( ! world->logged);});
      if( calls)
      {
         using State = sm::transaction::State;
         add( "call", [](){ call( State::ok, true);});
         if( current() && current()->state == Transaction::State::active) add( "call, rolled back", [](){ call( State::rollback, true);});
         if( current() && current()->state == Transaction::State::active && ( w.caller_transaction || vk::thorough())) add( "call, timeout", [](){ call( State::timeout, true);});
      }
      return result;
   }

   void step( std::vector< Action> actions, const char* what)
   {
      std::vector< std::string> names;
      for( auto& a : actions) names.push_back( a.name);
      auto index = vk::choose( names, what);
      vk::transition();
      history.clear();
      // a resource that has failed for a transaction that is held, is a reason to fail
      world->fault = std::any_of( world->stack.begin(), world->stack.end(), []( auto& t)
      {
         return std::any_of( world->resources.begin(), world->resources.end(), [&]( auto& r){ return r.branches[ t.number].fault;});
      });
      note( names[ index] + ":");
      history.clear();
      actions[ index].apply();
   }

   std::string state()
   {
      auto& w = *world;
      // the transactions that are held, in order
      std::ostringstream out;
      for( auto& t : w.stack)
      {
         out << t.foreign << t.suspended << t.external << int( t.state) << t.pending << ':';
         for( auto& r : w.resources)
         {
            auto& b = r.branches[ t.number];
            out << int( b.state) << b.fault << b.told << b.rollback_only;
         }
         out << ';';
      }
      out << '|' << w.control << w.logged << w.faults << w.outcomes << ',' << w.begun << ',' << w.calls;
      return out.str();
   }

   // =================================================================================== X01

   namespace interface
   {
      void run()
      {
         std::vector< std::string> scenarios{ "no resource", "one resource", "two resources"};
         auto scenario = vk::choose( scenarios, "scenario");
         boot( scenario, 0);
         cc::transaction::context().configure( links());
         history.clear();
         auto& w = *world;
         const int limit = vk::thorough() ? 10 : 7;
         w.faults = vk::thorough() ? 2 : 1;
         w.outcomes = 2;
         w.returns = true;
         for( int depth = 0; depth < limit; ++depth)
         {
            vk::visit_or_finish( std::to_string( scenario) + state(), limit - depth);
            step( operations( vk::thorough() ? 3 : 2, vk::thorough() ? 5 : 4, true), "operation");
         }
         vk::finish();
      }
   }
   // =================================================================================== X04

   namespace invocation
   {
      namespace cst = cc::service::transaction;

      enum class Kind { call, no_reply, conversation};
      enum class End { success, fail, nothing, exception, forward, forward_absent};
      const char* ends[] = { "success", "fail", "no tpreturn", "exception", "forward", "forward to absent"};

      struct Request
      {
         int number{};
         Kind kind{};
         cst::Type type{};
         bool in{};                    //!< the caller is in a transaction
         cc::strong::correlation::id correlation;
         cc::transaction::ID trid;
         int invoked{};
         std::optional< End> end;
         bool pending{};               //!< replies were outstanding in a transaction when it ended
         bool own_pending{};           //!< it had own transactions when it forwarded
         std::vector< int> owned;
         std::optional< Transaction::State> foreign;
         std::vector< std::string> events;
         Code code{};
         int forwarded{};
      };
      Request* request{};
      int limit{};
      std::vector< cc::strong::correlation::id> outstanding;

      const char* name( cst::Type type)
      {
         switch( type)
         {
            case cst::Type::automatic: return "automatic";
            case cst::Type::join: return "join";
            case cst::Type::atomic: return "atomic";
            case cst::Type::none: return "none";
            case cst::Type::branch: return "branch";
         }
         return "?";
      }

      //! the service is invoked: in the transaction it shall be
      void entered( TPSVCINFO* info)
      {
         auto& w = *world;
         auto& r = *request;
         vk::evaluated();
         if( ++r.invoked > 1) violation( "the service is invoked twice");
         if( std::string( info->name) != name( r.type)) violation( "another service is invoked", info->name);
         if( std::string( info->data, info->len).c_str() != "request " + std::to_string( r.number)) violation( "the service is given other data", std::string( info->data, info->len));
         TXINFO current{};
         auto in = ::tx_info( &current) == 1;
         if( ( ( info->flags & 0x10) != 0) != in) violation( "the service is told wrong about transaction");
         if( ( ( info->flags & TPNOREPLY_) != 0) != ( r.kind == Kind::no_reply)) violation( "the service is told wrong about reply");
         if( ( info->flags & 0x400) != ( r.kind == Kind::conversation ? 0x400 : 0)) violation( "the service is told wrong about conversation");

         bool expected = r.type == cst::Type::none ? false : r.type == cst::Type::join ? r.in : true;
         if( in != expected) violation( in ? "the service is in a transaction when it shall not be" : "the service is not in a transaction when it shall be", name( r.type));
         if( in)
         {
            Transaction t;
            t.number = number_of( current.xid);
            t.foreign = r.in && r.type != cst::Type::atomic;
            if( t.foreign)
            {
               if( r.type == cst::Type::branch)
               {
                  if( t.number == w.caller_transaction) violation( "the service is in the transaction branch of the caller");
                  if( ! foreign( t.number)) violation( "the service is not in a branch of the transaction of the caller");
               }
               else if( t.number != w.caller_transaction) violation( "the service is not in the transaction of the caller");
            }
            else if( foreign( t.number)) violation( "the service is in the transaction of the caller", name( r.type));
            w.stack.push_back( t);
            ++w.begun;
         }
         check( "the service is invoked");
      }

      //! the service returns: what is held is completed
      void leaving( End end)
      {
         auto& w = *world;
         auto& r = *request;
         r.end = end;
         for( auto& t : w.stack)
         {
            if( t.pending) r.pending = true;
            if( t.foreign) r.foreign = t.state;
            else
            {
               r.owned.push_back( t.number);
               // it can be only be rolled back
               if( ( end != End::success && end != End::forward) || t.pending) if( t.state == Transaction::State::active) t.state = Transaction::State::rollback;
            }
            completing( t);
         }
         if( ! r.owned.empty()) r.own_pending = true;
         if( end == End::forward && r.own_pending)
            for( auto n : r.owned) w.completing[ n].state = Transaction::State::rollback;
         w.stack.clear();
      }

      int perform( TPSVCINFO* info)
      {
         auto& w = *world;
         auto& r = *request;
         entered( info);
         for( int depth = 0; ; ++depth)
         {
            vk::visit_or_finish( "service " + std::to_string( int( r.kind)) + name( r.type) + std::to_string( r.in) + state() + std::to_string( outstanding.size()), limit - depth);
            std::vector< Action> actions;
            if( depth < limit) actions = operations( 2, w.begun + 1, true);
            if( depth < limit && current() && w.called == nullptr && outstanding.empty()) 
            {
               actions.push_back( { "acall", [](){ call( sm::transaction::State::ok, false);}});
               actions.push_back( { "acall, and the reply comes", [](){ call( sm::transaction::State::ok, false, true);}});
            }
            auto count = actions.size();
            for( auto e : ends)
            {
               if( r.kind == Kind::conversation && std::string( e).find( "forward") == 0) continue;
               actions.push_back( { e, [](){}});
            }
            std::vector< std::string> names;
            for( auto& a : actions) names.push_back( a.name);
            auto index = vk::choose( names, "service");
            vk::transition();
            if( index >= int( count))
            {
               leaving( End( index - count));
               return index - count;
            }
            auto before = std::move( history);
            history.clear();
            actions[ index].apply();
            history = before + " " + names[ index] + " (" + history + ")";
         }
      }

      void service( TPSVCINFO* info)
      {
         auto end = perform( info);
         char* buffer = nullptr;
         if( end == 0 || end == 1 || end >= 4)
         {
            buffer = ::tpalloc( "X_OCTET", nullptr, 16);
            std::strcpy( buffer, end == 0 ? "success" : end == 1 ? "fail" : "forward");
         }
         switch( End( end))
         {
            case End::success: ::tpreturn( 2, 10 + request->number, buffer, 16, 0); break;
            case End::fail: ::tpreturn( 1, 20 + request->number, buffer, 16, 0); break;
            case End::nothing: break;
            case End::exception: throw std::runtime_error{ "planned"};
            case End::forward: cc::server::context().forward( "served", buffer, 16); break;
            case End::forward_absent: cc::server::context().forward( "absent", buffer, 16); break;
         }
      }

      void peers()
      {
         auto& w = *world;
         auto& caller = *vkc::peers()[ "caller"];
         caller.on< conv::connect::Reply>( []( auto& reply)
         {
            auto& r = *request;
            if( r.kind != Kind::conversation || reply.correlation != r.correlation) violation( "connect reply that is not expected");
            if( ! r.events.empty() || r.invoked) violation( "connect reply is not the first");
            r.events.push_back( "connect");
         });
         auto replied = []( auto& reply, bool conversation)
         {
            auto& r = *request;
            vk::evaluated();
            note( "reply");
            if( r.kind == Kind::no_reply) violation( "reply to a request without reply");
            if( ( r.kind == Kind::conversation) != conversation) violation( "reply of another kind");
            if( reply.correlation != r.correlation) violation( "reply with another correlation");
            if( std::find( r.events.begin(), r.events.end(), "reply") != r.events.end()) violation( "two replies");
            if( std::find( r.events.begin(), r.events.end(), "ack") != r.events.end()) violation( "reply after the acknowledge");
            if( r.end == End::forward && ! r.own_pending && r.forwarded) violation( "reply from a service that has forwarded");
            r.events.push_back( "reply");
            r.code = reply.code.result;
            using State = decltype( reply.transaction_state);

            auto what = std::string( r.end ? ends[ int( *r.end)] : "not invoked") + " gives " + std::string( cc::code::xatmi( reply.code.result) == Code::ok ? "ok" : cc::code::description( reply.code.result)) + ", transaction state " + std::to_string( int( reply.transaction_state));
            bool good = true, unknown = false;
            for( auto n : r.owned)
            {
               auto out = outcome( n);
               if( out.rolledback || out.unknown) good = false;
               if( world->completing[ n].state != Transaction::State::active) good = false;
               bool live = std::any_of( world->resources.begin(), world->resources.end(), [&]( auto& x){ return x.branches[ n].state == Branch::State::active || x.branches[ n].state == Branch::State::suspended || ( x.branches[ n].state == Branch::State::idle && ! x.branches[ n].told);});
               if( live) violation( "reply before the transactions of the service are done", what);
               unknown = unknown || out.unknown;
            }
            if( r.foreign && *r.foreign != Transaction::State::active) good = false;
            if( r.pending) good = false;
            bool ended = std::any_of( world->resources.begin(), world->resources.end(), []( auto& x){ return std::any_of( x.branches.begin(), x.branches.end(), []( auto& b){ return b.second.state == Branch::State::active;});});
            if( ended) violation( "reply before the resources are dissociated", what);

            if( r.end == End::success)
            {
               if( good && ! world->fault && reply.code.result != Code::ok) violation( "the service succeeds, and something else is told", what);
               if( ! good && reply.code.result == Code::ok) violation( "the service does not succeed, and it is told that it does", what);
               if( reply.code.user != 10 + r.number) violation( "another user code", what);
               if( text( reply.buffer) != "success") violation( "another result", what + " " + text( reply.buffer));
            }
            else if( r.end == End::fail)
            {
               if( reply.code.result != Code::service_fail) violation( "the service fails, and something else is told", what);
               if( reply.code.user != 20 + r.number) violation( "another user code", what);
               if( text( reply.buffer) != "fail") violation( "another result", what);
            }
            else if( reply.code.result == Code::ok || reply.code.result == Code::service_fail) violation( "the service does not return, and it is told that it does", what);
            if( ( r.end != End::success || ! good) && r.in && r.type != cst::Type::atomic && r.type != cst::Type::none && reply.transaction_state == State::ok)
               violation( "the transaction of the caller can commit although the service did not succeed", what);
            if( r.foreign == Transaction::State::timeout && reply.transaction_state == State::rollback) violation( "the timeout of the transaction is not told", what);
            if( r.end == End::success && good && ! world->fault && reply.transaction_state != State::ok) violation( "the transaction of the caller can not commit although the service succeeds", what);
            vk::cover( std::string( r.end ? ends[ int( *r.end)] : "not invoked") + " " + std::to_string( int( reply.code.result)));
         };
         caller.on< sm::call::Reply>( [replied]( auto& reply){ replied( reply, false);});
         caller.on< conv::callee::Send>( [replied]( auto& reply)
         {
            if( reply.duplex != conv::duplex::Type::terminated) violation( "the conversation is not terminated by the reply");
            replied( reply, true);
         });
         vkc::peers()[ "service-manager"]->on< sm::call::ACK>( []( auto& ack)
         {
            auto& r = *request;
            vk::evaluated();
            note( "ack");
            if( ack.correlation != r.correlation) violation( "acknowledge with another correlation");
            if( std::find( r.events.begin(), r.events.end(), "ack") != r.events.end()) violation( "two acknowledges");
            if( ack.metric.process != vkc::self()) violation( "acknowledge of another process");
            if( ack.metric.service != name( r.type)) violation( "acknowledge of another service");
            bool has = std::find( r.events.begin(), r.events.end(), "reply") != r.events.end();
            if( has && ack.metric.code.result != r.code) violation( "acknowledge with another code than the reply");
            r.events.push_back( "ack");
         });
         w.called = nullptr;
      }

      void handle( cc::server::handle::Call& handler, int number, Kind kind, cst::Type type, bool in, int known)
      {
         auto& w = *world;
         auto& caller = *vkc::peers()[ "caller"];
         history.clear();
         note( std::string( "request ") + name( type) + ( in ? " in transaction" : ""));
         w.fault = false;
         request = new Request;
         auto& r = *request;
         r.number = number; r.kind = kind; r.type = type; r.in = in;
         r.correlation = cc::strong::correlation::id{ vkc::uuid( 40, number)};
         w.caller_transaction = 0;
         if( in)
         {
            r.trid = cc::transaction::ID{ vkc::uuid( 41, number), vkc::uuid( 42, number), caller.handle};
            w.caller_transaction = number_of( r.trid.xid);
            if( known) for( auto& x : w.resources) x.branches[ w.caller_transaction].state = Branch::State::elsewhere;
         }
         w.called = nullptr;
         auto fill = [&]( auto& message)
         {
            message.process = caller.handle;
            message.correlation = r.correlation;
            message.service.name = name( type);
            message.trid = r.trid;
            message.buffer = payload( "request " + std::to_string( number));
         };
         bool forwarding = false;
         // what is forwarded
         auto forwarded = [&]( const sm::call::callee::Request& message)
         {
            auto& r = *request;
            note( "forwarded");
            if( r.end != End::forward) violation( "request from a service that does not forward");
            if( r.own_pending) violation( "forwarded although the service has transactions of its own");
            if( ++r.forwarded > 1) violation( "forwarded twice");
            if( message.process != caller.handle || message.correlation != r.correlation) violation( "the forwarded request is not from the caller");
            if( message.trid != r.trid) violation( "the forwarded request is in another transaction");
            if( message.service.name != "served") violation( "the forwarded request is for another service", message.service.name);
            if( text( message.buffer) != "forward") violation( "the forwarded request has other data");
            if( cc::flag::contains( message.flags, decltype( message.flags)::no_reply) != ( r.kind == Kind::no_reply)) violation( "the forwarded request has other flags");
            if( r.pending || ( r.foreign && *r.foreign != Transaction::State::active)) violation( "forwarded although the transaction of the caller shall be rolled back");
         };
         (void) forwarding;
         forward = forwarded;
         if( kind == Kind::conversation)
         {
            conv::connect::callee::Request message;
            fill( message);
            message.duplex = conv::duplex::Type::receive;
            cc::server::handle::Conversation{}( message);
         }
         else
         {
            sm::call::callee::Request message;
            fill( message);
            if( kind == Kind::no_reply) message.flags = decltype( message.flags)::no_reply;
            handler( message);
         }
         forward = nullptr;
         vk::evaluated();
         auto has = [&]( const char* event){ return std::find( r.events.begin(), r.events.end(), event) != r.events.end();};
         if( ! has( "ack")) violation( "the request is not acknowledged");
         if( ! r.invoked && ! w.fault) violation( "the service is not invoked");
         if( r.kind != Kind::no_reply && ! has( "reply") && ! r.forwarded) violation( "no reply");
         if( has( "reply") && r.forwarded) violation( "reply and forward");
         if( r.end == End::forward && ! r.own_pending && ! r.pending && ( ! r.foreign || *r.foreign == Transaction::State::active) && ! r.forwarded && ! w.fault) violation( "not forwarded");
         if( r.kind == Kind::no_reply)
            for( auto n : r.owned) (void)n;
         check( "after the request");
         for( auto& x : w.resources)
            for( auto& [ number, b] : x.branches)
               if( b.live() && foreign( number) && ! b.mentioned)
                  violation( "a resource is involved in a transaction of another process, and the transaction manager is not told", x.name);
         if( ! cc::transaction::context().empty()) violation( "transactions are held after the request");
         if( cc::service::call::Context::instance().pending()) violation( "descriptors are held after the request");
         if( cc::service::conversation::context().pending()) violation( "conversations are held after the request");
         if( r.forwarded) vk::cover( "forwarded");
      }

      void run()
      {
         boot( vk::thorough() ? vk::choose( { "no resource", "one resource", "two resources"}, "resources") : vk::choose( { "no resource", "one resource"}, "resources"), 0);
         auto& w = *world;
         w.faults = 1;
         w.outcomes = 1;
         limit = vk::thorough() ? 4 : 2;
         peers();

         std::vector< cc::server::Service> services;
         const std::vector< cst::Type> types{ cst::Type::automatic, cst::Type::join, cst::Type::atomic, cst::Type::none, cst::Type::branch};
         for( auto type : types)
            services.push_back( cc::server::xatmi::service( name( type), &service, type, cc::service::visibility::Type::discoverable, ""));
         cc::server::handle::Call handler{ cc::server::Arguments{ std::move( services), links()}};

         auto kind = Kind( vk::choose( { "call", "no reply", "conversation"}, "request"));
         auto type = types[ vk::choose( { "automatic", "join", "atomic", "none", "branch"}, "service")];
         bool in = vk::choose( { "not in transaction", "in transaction"}, "caller");
         auto known = in && ! w.resources.empty() && vk::choose( { "the resource is not used by the caller", "the resource is used by the caller"}, "resource");
         handle( handler, 1, kind, type, in, known);

         // and the process can do it again
         vk::visit_or_finish( "next " + std::to_string( w.control) + std::to_string( w.faults) + std::to_string( outstanding.size()), 10);
         w.faults = 0; w.outcomes = 0;
         limit = 1;
         handle( handler, 2, Kind::call, types[ vk::choose( { "automatic", "join"}, "service")], vk::choose( { "not in transaction", "in transaction"}, "caller"), 0);
         vk::finish();
      }
   }
}

int main( int argc, char** argv)
{
   return vkc::main( argc, argv, { .rule = "every operation sequence within the bounds, with every answer of the resources and the transaction manager",
      .assumptions = { "one thread in the process", "messages are not lost between processes that live"}}, []( const std::string& property)
   {
      if( property == "X01") interface::run();
      else invocation::run();
   });
}
