//! X02, X03: the calling side of XATMI - asynchronous and synchronous calls, and conversations - through the
//! C interface, with every order of requests, replies, timeouts and cancels within bounds. See DESIGN.md
// has to be before anything that declares namespace common::service::lookup
#include "common/service/conversation/context.h"
#include "vkc.h"

#include "casual/xatmi.h"
#include "casual/tx.h"

#include "common/buffer/type.h"
#include "common/message/service.h"
#include "common/message/conversation.h"
#include "common/message/transaction.h"
#include "common/service/call/context.h"

// the values of the standard: casual's internal headers undefine the names
constexpr int TX_OK = 0;
constexpr int TX_PROTOCOL_ERROR = -5;
constexpr int TX_ROLLBACK = -2;
constexpr long TPNOBLOCK = 0x00000001;
constexpr long TPNOTRAN = 0x00000008;
constexpr long TPNOREPLY = 0x00000004;
constexpr long TPGETANY = 0x00000080;
constexpr long TPNOCHANGE = 0x00000100;
constexpr long TPSENDONLY = 0x00000800;
constexpr long TPRECVONLY = 0x00001000;
constexpr long TPEBADDESC = 2;
constexpr long TPEBLOCK = 3;
constexpr long TPEINVAL = 4;
constexpr long TPENOENT = 6;
constexpr long TPETIME = 13;
constexpr long TPETRAN = 14;
constexpr long TPESVCFAIL = 11;
constexpr long TPESVCERR = 10;
constexpr long TPEEVENT = 22;
constexpr long TPEPROTO = 9;
constexpr long TPEV_DISCONIMM = 0x0001;
constexpr long TPEV_SVCERR = 0x0002;
constexpr long TPEV_SVCFAIL = 0x0004;
constexpr long TPEV_SVCSUCC = 0x0008;
constexpr long TPEV_SENDONLY = 0x0020;

namespace cc = casual::common;

namespace
{
   using vk::violation;
   namespace sm = cc::message::service;
   using Code = cc::code::xatmi;

   std::string name( Code code) { return std::string{ cc::code::description( code)};}

   casual::platform::binary::type binary( const std::string& text)
   {
      auto data = reinterpret_cast< const std::byte*>( text.data());
      return casual::platform::binary::type( data, data + text.size() + 1);
   }

   cc::buffer::Payload payload( const std::string& text) { return cc::buffer::Payload{ "X_OCTET/", binary( text)};}
   std::string text( const cc::buffer::Payload& value)
   {
      return value.data.empty() ? "" : std::string( reinterpret_cast< const char*>( value.data.data()));
   }

   //! what the world does when the program waits
   std::function< void()> waiting;

   void boot()
   {
      vkc::boot();
      auto& manager = vkc::peer( "service-manager", 2, 1);
      vkc::domain().singleton( cc::communication::instance::identity::service::manager, manager.handle);
      auto& tm = vkc::peer( "transaction-manager", 3, 1);
      vkc::domain().singleton( cc::communication::instance::identity::transaction::manager, tm.handle);
      vk::kernel::idle = []( const std::vector< int>&, const std::vector< int>&){ waiting();};
   }

   // =================================================================================== X02

   namespace call
   {
      enum class Target { served, absent, timeout, gone};
      const char* names[] = { "served", "absent", "timeout", "gone"};

      struct Call
      {
         int number{};
         int descriptor{};                            //!< 0 if none is held
         cc::strong::correlation::id correlation;
         bool transaction{}, reply{}, synchronous{};
         enum class Caller { outstanding, done, cancelled, failed} caller = Caller::outstanding;
         //! the server works on it
         bool busy{};
         //! service manager has, or may, reply on its own
         bool manager{};
         //! what has been sent to the caller, and is not taken
         struct Reply { Code code; long user; int state;};
         std::optional< Reply> arrived;
         std::string text() const { return "call " + std::to_string( number);}
      };

      struct World
      {
         std::vector< Call> calls;
         std::vector< int> arrivals;                  //!< calls with a reply that arrived, in order
         bool transaction{};
         int rollback_only{};                         //!< state of the transaction, as in TXINFO
         int begun{};
         bool ambiguous{};
         vkc::Peer* server{};
         cc::process::Handle gone;
         std::optional< Call> requested;              //!< the call that is being made
         int lookups{}, requests{};
         std::string blocked;                         //!< the operation that waits
         std::string last;                            //!< when a request was received
         int commits{}, rollbacks{};
         std::vector< int> stale;                     //!< descriptors that were valid before
      };
      World* world{};

      std::string tp( int result) { return result == -1 ? "-1 " + std::string( tperrnostring( tperrno)) : std::to_string( result);}

      char* buffer( const std::string& text)
      {
         auto result = ::tpalloc( X_OCTET, nullptr, 64);
         std::memcpy( result, text.c_str(), text.size() + 1);
         return result;
      }

      void peers( World& w)
      {
         auto& server = vkc::peer( "server", 4, 1);
         w.server = &server;
         w.gone.pid = cc::strong::process::id{ 10900};
         w.gone.ipc = cc::strong::ipc::id{ vkc::uuid( 9, 9)};

         vkc::peers()[ "service-manager"]->on< sm::lookup::Request>( [&w]( auto& request)
         {
            ++w.lookups;
            if( ! w.requested) violation( "lookup without call", request.requested);
            w.requested->correlation = request.correlation;
            using Semantic = decltype( request.context.semantic);
            if( ( request.context.semantic == Semantic::no_reply) == w.requested->reply)
               violation( "lookup semantic differs from the call", vkc::text( request));
            auto reply = cc::message::reverse::type( request);
            reply.service.name = request.requested;
            using State = decltype( reply.state);
            if( request.requested == "absent") reply.state = State::absent;
            else if( request.requested == "timeout") reply.state = State::timeout;
            else
            {
               reply.state = State::idle;
               reply.process = request.requested == "gone" ? w.gone : w.server->handle;
            }
            vkc::push( request.process.ipc, reply);
         });

         server.on< sm::call::callee::Request>( [&w]( auto& request)
         {
            ++w.requests;
            if( ! w.requested) violation( "request without call", vkc::text( request));
            auto& call = *w.requested;
            if( request.correlation != call.correlation) violation( "request has another correlation than its lookup", call.text());
            if( text( request.buffer) != call.text()) violation( "request has other data than the call", text( request.buffer) + " - " + call.text());
            if( request.service.name != "served") violation( "request for another service", request.service.name);
            if( request.process != vkc::self()) violation( "request has another caller");
            bool in = cc::predicate::boolean( request.trid);
            if( in != call.transaction) violation( "request in transaction when it shall not be, or the reverse", call.text() + ( in ? " in" : " not in"));
            if( cc::flag::contains( request.flags, decltype( request.flags)::no_reply) == call.reply) violation( "request has another reply flag", call.text());
            call.busy = true;
         });

         auto& tm = *vkc::peers()[ "transaction-manager"];
         namespace txm = cc::message::transaction;
         tm.on< txm::commit::Request>( [&w]( auto& request)
         {
            ++w.commits;
            auto reply = cc::message::reverse::type( request);
            reply.trid = request.trid;
            reply.state = decltype( reply.state)::ok;
            reply.stage = decltype( reply.stage)::commit;
            vkc::push( request.process.ipc, reply);
         });
         tm.on< txm::rollback::Request>( [&w]( auto& request)
         {
            ++w.rollbacks;
            auto reply = cc::message::reverse::type( request);
            reply.trid = request.trid;
            reply.state = decltype( reply.state)::ok;
            vkc::push( request.process.ipc, reply);
         });
         tm.on< txm::resource::involved::Request>( []( auto& request)
         {
            if( ! request.reply) return;
            auto reply = cc::message::reverse::type( request);
            vkc::push( request.process.ipc, reply);
         });
      }

      //! @param state of the transaction: 0 ok, 1 timeout, 2 rollback, 3 error
      void arrive( World& w, Call& call, Code code, int state)
      {
         sm::call::Reply reply;
         reply.correlation = call.correlation;
         reply.code.result = code;
         reply.code.user = call.number * 10;
         using State = decltype( reply.transaction_state);
         reply.transaction_state = state == 0 ? State::ok : state == 1 ? State::timeout : state == 2 ? State::rollback : State::error;
         if( code == Code::ok || code == Code::service_fail) reply.buffer = payload( "reply " + std::to_string( call.number));
         vkc::to_self( reply);
         if( call.caller == Call::Caller::outstanding && ! call.arrived)
         {
            call.arrived = Call::Reply{ code, reply.code.user, state == 3 ? 2 : state};
            w.arrivals.push_back( call.number);
         }
      }

      struct Action { std::string name; std::function< void()> apply;};

      //! what the world can do
      std::vector< Action> environment( World& w)
      {
         std::vector< Action> result;
         auto add = [&]( Call& call)
         {
            auto number = call.number;
            auto at = [&w, number]() -> Call&
            {
               if( w.requested && w.requested->number == number) return *w.requested;
               return *std::find_if( w.calls.begin(), w.calls.end(), [ number]( auto& c){ return c.number == number;});
            };
            auto suffix = " " + std::to_string( number);
            if( call.busy && call.reply)
            {
               auto reply = [&]( const std::string& text, Code code, int state)
               {
                  result.push_back( { text + suffix, [&w, at, code, state](){ auto& c = at(); c.busy = false; arrive( w, c, code, state);}});
               };
               reply( "ok", Code::ok, 0);
               reply( "fail", Code::service_fail, call.transaction ? 2 : 0);
               if( call.number == 1 || vk::thorough()) reply( "error", Code::service_error, call.transaction ? 3 : 0);
               if( call.transaction && ( call.number == 1 || vk::thorough())) reply( "fail by timeout", Code::service_error, 1);
            }
            if( call.manager && call.reply && ! call.arrived)
               result.push_back( { ( call.caller == Call::Caller::failed ? "lost" : "timeout") + suffix, [&w, at]()
               {
                  auto& c = at();
                  c.manager = false;
                  arrive( w, c, c.caller == Call::Caller::failed ? Code::service_error : Code::timeout, 0);
               }});
         };
         for( auto& c : w.calls) add( c);
         if( w.requested) add( *w.requested);
         return result;
      }

      std::string state( World& w)
      {
         std::ostringstream out;
         auto call = [&out]( auto& c)
         {
            out << c.number << ':' << c.descriptor << c.transaction << c.reply << c.synchronous << int( c.caller) << c.busy << c.manager;
            if( c.arrived) out << name( c.arrived->code) << c.arrived->state;
            out << ';';
         };
         for( auto& c : w.calls) call( c);
         if( w.requested) { out << "R"; call( *w.requested);}
         for( auto a : w.arrivals) out << ',' << a;
         out << '|' << w.transaction << w.rollback_only << w.blocked << '|';
         std::set< int> stale( w.stale.begin(), w.stale.end());
         for( auto s : stale) out << s << ',';
         // stray messages are seen here
         out << vk::kernel::state( vk::kernel::now());
         return out.str();
      }

      int limit{}, depth{};

      Call* outstanding( World& w, int descriptor)
      {
         for( auto& c : w.calls)
            if( c.reply && c.caller == Call::Caller::outstanding && c.descriptor == descriptor) return &c;
         return nullptr;
      }

      void done( World& w, Call& call, Call::Caller how)
      {
         call.caller = how;
         w.stale.push_back( call.descriptor);
         call.descriptor = 0;
         std::erase( w.arrivals, call.number);
      }

      //! a reply has been given to the user, with this outcome
      void taken( World& w, Call& call, int result, int error, const char* data, long user)
      {
         vk::evaluated();
         auto& reply = *call.arrived;
         auto expected = reply.code;
         auto what = call.text() + " replied " + name( expected) + ", result is " + std::to_string( result) + " " + tperrnostring( error);
         if( ( result != -1) != ( expected == Code::ok)) violation( "a reply is reported with another outcome", what);
         if( expected != Code::ok && error != static_cast< int>( expected)) violation( "a reply is reported with another error", what);
         if( expected == Code::ok || expected == Code::service_fail)
         {
            if( std::string( data) != "reply " + std::to_string( call.number)) violation( "a call is given the reply of another", call.text() + " - " + data);
            if( user != reply.user) violation( "a call is given another user code", call.text() + " - " + std::to_string( user));
         }
         if( call.transaction && w.transaction)
         {
            w.rollback_only = std::max( w.rollback_only, reply.state);
            TXINFO info{};
            if( ::tx_info( &info) != 1) violation( "the transaction is gone", what);
            if( info.transaction_state != w.rollback_only)
               violation( "the transaction has another state", what + " - state " + std::to_string( info.transaction_state) + " expected " + std::to_string( w.rollback_only));
         }
         vk::cover( "replied " + name( expected));
         done( w, call, Call::Caller::done);
      }

      //! is the descriptor refused by the program? without changing anything
      void refused( World& w, int descriptor)
      {
         vk::evaluated();
         int d = descriptor;
         auto data = buffer( ""); long size = 0;
         if( ::tpgetrply( &d, &data, &size, TPNOBLOCK) != -1 || tperrno != TPEBADDESC)
            violation( "a descriptor that is not outstanding is accepted", std::to_string( descriptor) + " - " + tperrnostring( tperrno));
         ::tpfree( data);
      }

      void acall( World& w, Target target, long flags)
      {
         auto& call = w.requested.emplace();
         call.number = int( w.calls.size()) + 1;
         call.transaction = w.transaction && ! ( flags & TPNOTRAN);
         call.reply = ! ( flags & TPNOREPLY);
         call.manager = target == Target::served || target == Target::gone;
         auto requests = w.requests;
         auto data = buffer( call.text());
         auto result = ::tpacall( names[ int( target)], data, 64, flags);
         auto error = tperrno;
         ::tpfree( data);
         vk::evaluated();
         auto c = *std::exchange( w.requested, {});
         auto what = c.text() + " - " + tp( result);
         if( call.transaction && ! call.reply)
         {
            if( result != -1 || error != TPEINVAL) violation( "call without reply in transaction is accepted", what);
            return;
         }
         switch( target)
         {
            case Target::served:
               if( result == -1) violation( "call fails", what);
               if( w.requests != requests + 1) violation( "call has not sent its request", what);
               if( c.reply)
               {
                  if( result <= 0) violation( "call gives no descriptor", what);
                  if( outstanding( w, result)) violation( "call gives a descriptor in use", what);
                  c.descriptor = result;
               }
               else if( result != 0) violation( "call without reply gives a descriptor", what);
               else c.caller = Call::Caller::done;
               std::erase( w.stale, result);
               break;
            case Target::absent: if( result != -1 || error != TPENOENT) violation( "call to absent service gives another result", what); break;
            case Target::timeout: if( result != -1 || error != TPETIME) violation( "call with timeout in lookup gives another result", what); break;
            case Target::gone:
               if( result != -1) violation( "call that can't be sent succeeds", what);
               c.caller = Call::Caller::failed;
               break;
         }
         if( target == Target::served || target == Target::gone) w.calls.push_back( c);
         else return;
         vk::cover( std::string( "call ") + names[ int( target)] + ( c.transaction ? " in transaction" : "") + ( c.reply ? "" : " without reply"));
      }

      void call( World& w, Target target, long flags)
      {
         auto& call = w.requested.emplace();
         call.number = int( w.calls.size()) + 1;
         call.transaction = w.transaction && ! ( flags & TPNOTRAN);
         call.reply = call.synchronous = true;
         call.manager = target == Target::served || target == Target::gone;
         auto requests = w.requests;
         auto data = buffer( call.text());
         long size = 64;
         w.blocked = "call";
         auto result = ::tpcall( names[ int( target)], data, 64, &data, &size, flags);
         auto error = tperrno; auto user = tpurcode;
         w.blocked.clear();
         vk::evaluated();
         auto c = *std::exchange( w.requested, {});
         auto what = c.text() + " - " + tp( result);
         switch( target)
         {
            case Target::served:
               if( w.requests != requests + 1) violation( "call has not sent its request", what);
               if( ! c.arrived) violation( "call returns before its reply", what);
               taken( w, c, result, error, data, user);
               w.stale.pop_back();
               w.calls.push_back( c);
               break;
            case Target::absent: if( result != -1 || error != TPENOENT) violation( "call to absent service gives another result", what); break;
            case Target::timeout: if( result != -1 || error != TPETIME) violation( "call with timeout in lookup gives another result", what); break;
            case Target::gone:
               if( result != -1) violation( "call that can't be sent succeeds", what);
               c.caller = Call::Caller::failed;
               w.calls.push_back( c);
               break;
         }
         ::tpfree( data);
         vk::cover( "synchronous call");
      }

      void getrply( World& w, int descriptor, long flags)
      {
         bool any = flags & TPGETANY;
         int d = any ? 4711 : descriptor;
         auto data = buffer( "none");
         long size = 0;
         bool known = any || outstanding( w, descriptor);
         if( ! ( flags & TPNOBLOCK) && known) w.blocked = any ? "any" : "get " + std::to_string( descriptor);
         auto result = ::tpgetrply( &d, &data, &size, flags);
         auto error = tperrno; auto user = tpurcode;
         auto what = "descriptor " + ( any ? std::string( "any") : std::to_string( descriptor)) + " gives " + std::to_string( result) + " " + tperrnostring( error) + " for " + std::to_string( d) + " data " + data;
         w.blocked.clear();
         vk::evaluated();

         if( ! known)
         {
            if( result != -1 || error != TPEBADDESC) violation( "reply to a descriptor that is not outstanding", what);
            vk::cover( "invalid descriptor");
         }
         else if( ! any)
         {
            auto& c = *outstanding( w, descriptor);
            if( ! c.arrived)
            {
               if( ! ( flags & TPNOBLOCK)) violation( "returns without reply", what);
               if( result != -1 || error != TPEBLOCK) violation( "no reply, but the operation tells otherwise", what);
               vk::cover( "no reply yet");
            }
            else
            {
               taken( w, c, result, error, data, user);
               if( result != -1 && d != descriptor) violation( "the descriptor is changed", what);
            }
         }
         else if( w.arrivals.empty())
         {
            if( ! ( flags & TPNOBLOCK)) violation( "returns without reply", what);
            if( result != -1 || error != TPEBLOCK) violation( "no reply, but the operation tells otherwise", what);
            vk::cover( "no reply yet");
         }
         else
         {
            auto at = [&]( int number) -> Call& { return *std::find_if( w.calls.begin(), w.calls.end(), [ number]( auto& c){ return c.number == number;});};
            if( result != -1 || error == TPESVCFAIL)
            {
               auto c = outstanding( w, d);
               if( ! c || ! c->arrived) violation( "any gives a descriptor that is not outstanding, or not replied", what);
               taken( w, *c, result, error, data, user);
            }
            else
            {
               // the operation does not tell which, hence one of those with this error
               std::vector< int> candidates;
               for( auto number : w.arrivals) if( static_cast< int>( at( number).arrived->code) == error) candidates.push_back( number);
               if( candidates.empty()) violation( "any gives an error that no outstanding call has", what);
               auto& c = at( candidates.front());
               taken( w, c, result, error, data, user);
               if( candidates.size() > 1) vk::finish( "any: which of several");
            }
            vk::cover( "any");
         }
         ::tpfree( data);
      }

      void cancel( World& w, int descriptor)
      {
         auto c = outstanding( w, descriptor);
         auto result = ::tpcancel( descriptor);
         auto error = tperrno;
         vk::evaluated();
         auto what = std::to_string( descriptor) + " gives " + std::to_string( result) + " " + tperrnostring( error);
         if( ! c)
         {
            if( result != -1 || error != TPEBADDESC) violation( "cancel of a descriptor that is not outstanding", what);
         }
         else if( c->transaction && w.transaction && ! w.rollback_only)
         {
            if( result != -1 || error != TPETRAN) violation( "cancel of a call in transaction", what);
         }
         else
         {
            if( result == -1) violation( "cancel fails", what);
            vk::cover( c->arrived ? "cancel with reply" : "cancel");
            done( w, *c, Call::Caller::cancelled);
         }
      }

      bool pending( World& w)
      {
         return std::any_of( w.calls.begin(), w.calls.end(), []( auto& c){ return c.transaction && c.reply && c.caller == Call::Caller::outstanding;});
      }

      void commit( World& w)
      {
         auto result = ::tx_commit();
         vk::evaluated();
         auto what = "result " + std::to_string( result);
         if( pending( w))
         {
            if( result != TX_PROTOCOL_ERROR) violation( "commit with outstanding calls in the transaction", what);
            vk::cover( "commit with outstanding calls");
         }
         else if( w.rollback_only)
         {
            if( result == TX_OK) violation( "commit of a transaction that is rollback only", what);
            if( ::tx_info( nullptr) == 0) w.transaction = w.rollback_only = 0;
         }
         else
         {
            if( result != TX_OK) violation( "commit fails with all calls in the transaction done", what);
            w.transaction = false;
            vk::cover( "commit");
         }
      }

      void rollback( World& w)
      {
         auto result = ::tx_rollback();
         vk::evaluated();
         if( result != TX_OK) violation( "rollback fails", std::to_string( result));
         w.transaction = w.rollback_only = 0;
      }

      std::vector< Action> operations( World& w, int calls)
      {
         std::vector< Action> result;
         auto add = [&]( std::string text, auto action){ result.push_back( { std::move( text), action});};

         if( int( w.calls.size()) < calls)
         {
            add( "acall", [&w](){ acall( w, Target::served, 0);});
            if( w.transaction) add( "acall not in transaction", [&w](){ acall( w, Target::served, TPNOTRAN);});
            add( "acall no reply", [&w](){ acall( w, Target::served, TPNOREPLY | TPNOTRAN);});
            add( "acall gone", [&w](){ acall( w, Target::gone, 0);});
            add( "acall gone no reply", [&w](){ acall( w, Target::gone, TPNOREPLY | TPNOTRAN);});
            add( "call", [&w](){ call( w, Target::served, 0);});
            if( w.transaction)
            {
               add( "call not in transaction", [&w](){ call( w, Target::served, TPNOTRAN);});
               add( "acall no reply in transaction", [&w](){ acall( w, Target::served, TPNOREPLY);});
            }
            if( w.calls.size() < 2 || vk::thorough())
            {
               add( "acall absent", [&w](){ acall( w, Target::absent, 0);});
               add( "acall timeout", [&w](){ acall( w, Target::timeout, 0);});
               add( "call absent", [&w](){ call( w, Target::absent, 0);});
               add( "call gone", [&w](){ call( w, Target::gone, 0);});
            }
         }
         std::set< int> descriptors;
         for( auto& c : w.calls) if( c.descriptor) descriptors.insert( c.descriptor);
         for( auto d : descriptors)
         {
            add( "get " + std::to_string( d), [&w, d](){ getrply( w, d, 0);});
            add( "poll " + std::to_string( d), [&w, d](){ getrply( w, d, TPNOBLOCK);});
            add( "cancel " + std::to_string( d), [&w, d](){ cancel( w, d);});
         }
         if( ! descriptors.empty()) add( "any", [&w](){ getrply( w, 0, TPGETANY);});
         add( "poll any", [&w](){ getrply( w, 0, TPGETANY | TPNOBLOCK);});
         int invalid = 1;
         for( auto s : w.stale) if( ! descriptors.count( s)) invalid = s;
         while( descriptors.count( invalid)) ++invalid;
         add( "get invalid", [&w, invalid](){ getrply( w, invalid, 0);});
         add( "cancel invalid", [&w, invalid](){ cancel( w, invalid);});
         if( ! w.transaction && w.begun < 2) add( "begin", [&w](){ if( ::tx_begin() != TX_OK) violation( "begin fails"); w.transaction = true; ++w.begun;});
         if( w.transaction)
         {
            add( "commit", [&w](){ commit( w);});
            if( ! pending( w)) add( "rollback", [&w](){ rollback( w);});
         }
         return result;
      }

      void step( std::vector< Action> actions, const char* what)
      {
         std::vector< std::string> names;
         for( auto& a : actions) names.push_back( a.name);
         auto index = vk::choose( names, what);
         vk::transition();
         actions[ index].apply();
      }

      void run()
      {
         auto& w = *new World;
         world = &w;
         boot();
         peers( w);
         const int calls = vk::thorough() ? 4 : 3;
         limit = vk::thorough() ? 7 : 5;

         waiting = [&w]()
         {
            if( w.blocked.empty()) violation( "an operation that shall not wait waits", state( w));
            vk::visit_or_finish( state( w), limit - depth);
            auto actions = environment( w);
            if( actions.empty()) violation( "waits forever", w.blocked);
            step( std::move( actions), "while waiting");
         };

         // a call is made to warm up: the connections
         for( ; depth < limit; ++depth)
         {
            vk::visit_or_finish( state( w), limit - depth);
            auto actions = operations( w, calls);
            for( auto& a : environment( w)) actions.push_back( std::move( a));
            step( std::move( actions), "operation");

            for( auto d : std::set< int>( w.stale.begin(), w.stale.end())) if( ! outstanding( w, d)) refused( w, d);
         }
         // everything outstanding shall get its reply
         for( auto& c : w.calls)
            if( c.descriptor)
            {
               if( ! c.arrived) { c.busy = false; arrive( w, c, Code::ok, 0);}
               getrply( w, c.descriptor, 0);
            }
         if( w.transaction && ! w.rollback_only) commit( w);
         if( cc::service::call::Context::instance().pending()) violation( "descriptors are held when no call is outstanding");
         vk::finish();
      }
   }
   // =================================================================================== X03

   namespace conversation
   {
      namespace msg = cc::message::conversation;
      using Duplex = msg::duplex::Type;

      struct Arrived
      {
         enum class Kind { data, over, success, fail, error, lost} kind;   // lost: from the service manager
         std::string text;
         long user{};
         bool ends() const { return kind != Kind::data && kind != Kind::over;}
      };

      struct Conversation
      {
         int number{};
         int descriptor = -1;
         cc::strong::correlation::id correlation;
         bool transaction{};
         enum class Answer { none, accepted, refused, timeout, failed} answer = Answer::none;
         bool open{};                     //!< for the user
         bool control{};                  //!< the user has
         // the service
         vkc::Peer* server{};
         bool serving{};                  //!< the service runs
         bool has_control{};              //!< the service has
         bool connecting{};               //!< the request is received, and not answered
         bool manager{};                  //!< service manager may tell that the server is lost
         long told{};                     //!< how it ended, as told to the user
         int sent{};                      //!< messages from the service
         std::vector< std::string> expected; //!< messages to the service, sent by the user, not received by it
         std::deque< Arrived> inbox;      //!< arrived to the user, not taken
         std::string text() const { return "conversation " + std::to_string( number);}
      };

      struct World
      {
         std::deque< Conversation> conversations;
         bool transaction{}, rollback_only{};
         int begun{};
         std::string blocked;
         int making = -1;                    //!< the conversation that is connecting
         long flags{};
         std::vector< int> stale;
         int sends{};
         bool transactions{};
      };

      struct Action { std::string name; std::function< void()> apply;};

      char* buffer( const std::string& text) { return call::buffer( text);}

      void arrive( World& w, Conversation& c, Arrived arrived)
      {
         using Kind = Arrived::Kind;
         if( arrived.kind == Kind::lost)
         {
            sm::call::Reply reply;
            reply.correlation = c.correlation;
            reply.code.result = Code::service_error;
            vkc::to_self( reply);
         }
         else
         {
            msg::callee::Send send;
            send.correlation = c.correlation;
            send.duplex = arrived.kind == Kind::data ? Duplex::receive : arrived.kind == Kind::over ? Duplex::send : Duplex::terminated;
            if( arrived.kind == Kind::success) send.code.result = Code::ok;
            if( arrived.kind == Kind::fail) { send.code.result = Code::service_fail; send.transaction_state = decltype( send.transaction_state)::rollback;}
            if( arrived.kind == Kind::error) { send.code.result = Code::service_error; send.transaction_state = decltype( send.transaction_state)::rollback;}
            send.code.user = arrived.user;
            if( ! arrived.text.empty()) send.buffer = payload( arrived.text);
            else if( arrived.kind != Kind::error) send.buffer = cc::buffer::Payload{ nullptr};  // as a server, an error could be from a gateway
            vkc::to_self( send);
         }
         c.inbox.push_back( std::move( arrived));
      }

      void peers( World& w, int servers)
      {
         auto& manager = *vkc::peers()[ "service-manager"];
         manager.on< sm::lookup::Request>( [&w]( auto& request)
         {
            if( w.making == -1) violation( "lookup without connect", request.requested);
            auto& c = w.conversations[ w.making];
            c.correlation = request.correlation;
            auto reply = cc::message::reverse::type( request);
            reply.service.name = request.requested;
            using State = decltype( reply.state);
            if( request.requested == "absent") reply.state = State::absent;
            else
            {
               reply.state = State::idle;
               reply.process = c.server->handle;
               c.manager = true;
            }
            vkc::push( request.process.ipc, reply);
         });
         manager.on< sm::call::ACK>( []( auto& ack)
         {
            violation( "the caller acknowledges for the server", vkc::text( ack.metric.process));
         });

         for( int i = 0; i < servers; ++i)
         {
            auto& server = vkc::peer( "server " + std::to_string( i + 1), 4, i + 1);
            auto find = [&w, i]( auto& message, const char* what) -> Conversation&
            {
               for( auto& c : w.conversations)
                  if( c.server == vkc::peers()[ "server " + std::to_string( i + 1)].get() && c.correlation == message.correlation) return c;
               violation( "message outside of any conversation", what);
            };
            server.on< msg::connect::callee::Request>( [&w, find]( auto& request)
            {
               auto& c = find( request, "connect");
               if( w.making != c.number - 1) violation( "connect request without connect", c.text());
               if( text( request.buffer) != c.text()) violation( "connect has other data", text( request.buffer));
               bool receive = w.flags & TPRECVONLY;
               if( ( request.duplex == Duplex::send) != receive) violation( "connect gives the control to the wrong side", c.text());
               if( cc::predicate::boolean( request.trid) != c.transaction) violation( "connect in transaction when it shall not be, or the reverse", c.text());
               c.serving = c.connecting = true;
               c.has_control = receive;
            });
            server.on< msg::callee::Send>( [&w, find]( auto& send)
            {
               auto& c = find( send, "send");
               vk::evaluated();
               auto data = text( send.buffer);
               if( c.expected.empty()) violation( "the service is sent something that is not sent", data);
               if( c.expected.front() != data) violation( "the service is sent something else", data + " - " + c.expected.front());
               bool over = w.flags & TPRECVONLY;
               if( ( send.duplex == Duplex::send) != over) violation( "send gives the control to the wrong side", c.text());
               c.expected.erase( c.expected.begin());
               if( c.serving) c.has_control = over;
            });
            server.on< msg::Disconnect>( [find]( auto& disconnect)
            {
               auto& c = find( disconnect, "disconnect");
               if( c.open) violation( "disconnect of a conversation that is not disconnected", c.text());
               c.serving = c.has_control = false;
               c.manager = false;
            });
         }

         auto& tm = *vkc::peers()[ "transaction-manager"];
         namespace txm = cc::message::transaction;
         tm.on< txm::commit::Request>( []( auto& request)
         {
            auto reply = cc::message::reverse::type( request);
            reply.trid = request.trid;
            reply.state = decltype( reply.state)::ok;
            reply.stage = decltype( reply.stage)::commit;
            vkc::push( request.process.ipc, reply);
         });
         tm.on< txm::rollback::Request>( []( auto& request)
         {
            auto reply = cc::message::reverse::type( request);
            reply.trid = request.trid;
            reply.state = decltype( reply.state)::ok;
            vkc::push( request.process.ipc, reply);
         });
      }

      std::vector< Action> environment( World& w)
      {
         std::vector< Action> result;
         using Kind = Arrived::Kind;
         for( auto& c : w.conversations)
         {
            auto add = [&]( std::string text, auto action){ result.push_back( { text + " " + std::to_string( c.number), action});};
            auto end = [&w, &c]( Kind kind, std::string text)
            {
               c.serving = c.has_control = c.manager = false;
               arrive( w, c, { kind, std::move( text), c.number * 10L});
            };
            auto reply = [&w, &c]( Code code)
            {
               msg::connect::Reply reply{ c.server->handle};
               reply.correlation = c.correlation;
               reply.code.result = code;
               c.connecting = false;
               using Answer = Conversation::Answer;
               c.answer = code == Code::no_entry ? Answer::refused : code == Code::timeout ? Answer::timeout : Answer::accepted;
               vkc::to_self( reply);
            };
            if( c.connecting)
            {
               add( "accept", [=](){ reply( Code::absent);});
               add( "accept ok", [=](){ reply( Code::ok);});
               add( "refuse", [=, &c](){ c.serving = c.manager = false; reply( Code::no_entry);});
               add( "refuse timeout", [=, &c](){ c.serving = c.manager = false; reply( Code::timeout);});
               add( "fails at once", [=, &c](){ c.connecting = false; c.answer = Conversation::Answer::failed; end( Kind::error, "");});
            }
            else if( c.serving)
            {
               if( c.has_control)
               {
                  if( c.sent < ( vk::thorough() ? 3 : 2)) add( "send", [&w, &c](){ arrive( w, c, { Kind::data, "from " + std::to_string( c.number) + "." + std::to_string( ++c.sent)});});
                  if( c.sent < ( vk::thorough() ? 4 : 3)) add( "hand over", [&w, &c](){ c.has_control = false; arrive( w, c, { Kind::over, "from " + std::to_string( c.number) + "." + std::to_string( ++c.sent)});});
                  add( "success", [end](){ end( Kind::success, "done");});
                  add( "fail with data", [end](){ end( Kind::fail, "failed");});
               }
               else
                  add( "fail", [end](){ end( Kind::fail, "");});
               add( "error", [end](){ end( Kind::error, "");});
            }
            if( c.serving && c.server->alive)
               add( "die", [&c](){ c.serving = c.has_control = c.connecting = false; c.server->die();});
            if( c.manager && ! c.server->alive)
               add( "lost", [&w, &c](){ c.manager = false; if( c.answer == Conversation::Answer::none) c.answer = Conversation::Answer::failed; arrive( w, c, { Kind::lost});});
         }
         return result;
      }

      std::string state( World& w)
      {
         std::ostringstream out;
         for( auto& c : w.conversations)
         {
            out << c.number << ':' << c.descriptor << c.transaction << c.open << c.control << c.serving << c.has_control << c.connecting << c.manager << c.server->alive << c.sent << int( c.answer) << c.told << ';';
            for( auto& a : c.inbox) out << int( a.kind) << a.text << ',';
         }
         out << '|' << w.transaction << w.rollback_only << w.begun << w.blocked << w.making << '|' << w.transactions;
         for( auto s : std::set< int>( w.stale.begin(), w.stale.end())) out << s << ',';
         return out.str();
      }

      int limit{}, depth{};

      Conversation* open( World& w, int descriptor)
      {
         for( auto& c : w.conversations) if( c.open && c.descriptor == descriptor) return &c;
         return nullptr;
      }

      void done( World& w, Conversation& c, bool success)
      {
         c.open = c.control = false;
         c.inbox.clear();
         w.stale.push_back( c.descriptor);
         if( c.transaction && w.transaction && ! success) w.rollback_only = true;
      }

      //! the end of a conversation has been told to the user
      void ended( World& w, Conversation& c, int result, int error, long event, long user, const std::string& what)
      {
         using Kind = Arrived::Kind;
         auto front = c.inbox.front();
         auto expected = front.kind == Kind::success ? TPEV_SVCSUCC : front.kind == Kind::fail ? TPEV_SVCFAIL : TPEV_SVCERR;
         if( result != -1 || error != TPEEVENT || event != expected) violation( "the end is told in another way", what + " - expected " + std::to_string( expected));
         if( ( front.kind == Kind::success || front.kind == Kind::fail) && user != front.user) violation( "another user code is told", what + " - " + std::to_string( user));
         vk::cover( "ended " + std::to_string( expected));
         c.told = event;
         done( w, c, front.kind == Kind::success);
      }

      enum class Target { served, absent, gone};

      void connect( World& w, Target target, long flags)
      {
         auto& c = w.conversations.emplace_back();
         c.number = int( w.conversations.size());
         c.transaction = w.transaction && ! ( flags & TPNOTRAN);
         c.server = vkc::peers()[ "server " + std::to_string( c.number)].get();
         if( target == Target::gone) c.server->die();
         w.making = c.number - 1; w.flags = flags;
         auto data = buffer( c.text());
         w.blocked = "connect";
         auto result = ::tpconnect( target == Target::absent ? "absent" : "served", data, 64, flags);
         auto error = tperrno;
         w.blocked.clear();
         w.making = -1;
         ::tpfree( data);
         vk::evaluated();
         auto what = c.text() + " gives " + std::to_string( result) + " " + tperrnostring( error);
         using Answer = Conversation::Answer;
         if( c.answer == Answer::accepted)
         {
            if( result == -1) violation( "connect fails although it is accepted", what);
            if( open( w, result)) violation( "connect gives a descriptor in use", what);
            c.open = true;
            c.control = ! ( flags & TPRECVONLY);
            c.descriptor = result;
            std::erase( w.stale, result);
            vk::cover( "connected");
            return;
         }
         vk::cover( "connect fails");
         c.inbox.clear();
         if( result != -1) violation( "connect succeeds without being accepted", what);
         if( target == Target::absent) { if( error != TPENOENT) violation( "connect to an absent service gives another error", what);}
         else if( target == Target::gone) return;
         else if( c.answer == Answer::none) violation( "connect fails without answer", what);
         else if( error != ( c.answer == Answer::refused ? TPENOENT : c.answer == Answer::timeout ? TPETIME : TPESVCERR)) violation( "connect fails with another error than it is answered", what);
      }

      void send( World& w, int descriptor, long flags)
      {
         auto c = open( w, descriptor);
         auto message = "to " + std::to_string( descriptor) + "." + std::to_string( ++w.sends);
         long event = 0;
         w.flags = flags;
         bool alive = c && c->server->alive;
         if( c && c->control && c->inbox.empty() && alive) c->expected.push_back( message);
         auto data = buffer( message);
         auto result = ::tpsend( descriptor, data, 64, flags, &event);
         auto error = tperrno; auto user = tpurcode;
         ::tpfree( data);
         vk::evaluated();
         auto what = "descriptor " + std::to_string( descriptor) + " gives " + std::to_string( result) + " " + tperrnostring( error) + " event " + std::to_string( event);
         if( ! c) { if( result != -1 || error != TPEBADDESC) violation( "send with a descriptor that is not open", what);}
         else if( ! c->control) { if( result != -1 || error != TPEPROTO) violation( "send without control", what);}
         else if( ! c->inbox.empty()) ended( w, *c, result, error, event, user, what);
         else if( ! alive)
         {
            if( result != -1) violation( "send to nobody", what);
            done( w, *c, false);
            vk::cover( "send to a lost server");
         }
         else
         {
            if( result != 0) violation( "send fails", what);
            if( ! c->expected.empty()) violation( "what is sent is not received", message);
            if( flags & TPRECVONLY) c->control = false;
            vk::cover( flags & TPRECVONLY ? "send, hand over" : "send");
         }
      }

      void receive( World& w, int descriptor, long flags)
      {
         auto c = open( w, descriptor);
         auto data = buffer( "none");
         long size = 0, event = 0;
         if( c && ! c->control && ! ( flags & TPNOBLOCK)) w.blocked = "receive " + std::to_string( descriptor);
         auto result = ::tprecv( descriptor, &data, &size, flags, &event);
         auto error = tperrno; auto user = tpurcode;
         w.blocked.clear();
         vk::evaluated();
         auto what = "descriptor " + std::to_string( descriptor) + " gives " + std::to_string( result) + " " + tperrnostring( error) + " event " + std::to_string( event) + " data " + ( size ? data : "");
         using Kind = Arrived::Kind;
         if( ! c) { if( result != -1 || error != TPEBADDESC) violation( "receive with a descriptor that is not open", what);}
         else if( c->control) { if( result != -1 || error != TPEPROTO) violation( "receive with control", what);}
         else if( c->inbox.empty())
         {
            if( ! ( flags & TPNOBLOCK)) violation( "receive returns without message", what);
            if( result != -1 || error != TPEBLOCK) violation( "receive of nothing", what);
            vk::cover( "nothing to receive");
         }
         else
         {
            auto& front = c->inbox.front();
            if( ! front.text.empty() && front.text != ( size ? data : "")) violation( "another message is received", what + " - expected " + front.text);
            if( front.kind == Kind::data)
            {
               if( result != 0) violation( "receive fails", what);
               c->inbox.pop_front();
               vk::cover( "receive");
            }
            else if( front.kind == Kind::over)
            {
               if( result != -1 || error != TPEEVENT || event != TPEV_SENDONLY) violation( "the control is not told", what);
               c->control = true;
               c->inbox.pop_front();
               vk::cover( "receive, control");
            }
            else ended( w, *c, result, error, event, user, what);
         }
         ::tpfree( data);
      }

      void disconnect( World& w, int descriptor)
      {
         auto c = open( w, descriptor);
         bool alive = c && c->server->alive;
         if( c) c->open = false;
         auto result = ::tpdiscon( descriptor);
         auto error = tperrno;
         vk::evaluated();
         auto what = "descriptor " + std::to_string( descriptor) + " gives " + std::to_string( result) + " " + tperrnostring( error);
         if( ! c) { if( result != -1 || error != TPEBADDESC) violation( "disconnect with a descriptor that is not open", what);}
         else
         {
            if( alive && result != 0) violation( "disconnect fails", what);
            if( c->serving && alive) violation( "the service is not told about disconnect", what);
            done( w, *c, false);
            vk::cover( "disconnect");
         }
      }

      bool pending( World& w)
      {
         return std::any_of( w.conversations.begin(), w.conversations.end(), []( auto& c){ return c.open && c.transaction;});
      }

      void commit( World& w)
      {
         auto result = ::tx_commit();
         vk::evaluated();
         auto what = std::to_string( result);
         if( pending( w))
         {
            if( result != TX_PROTOCOL_ERROR) violation( "commit with an open conversation in the transaction", what);
            vk::cover( "commit with open conversation");
         }
         else if( w.rollback_only)
         {
            if( result == TX_OK) violation( "commit although a conversation in the transaction did not succeed", what);
            if( ::tx_info( nullptr) == 0) w.transaction = w.rollback_only = false;
            vk::cover( "commit when rollback only");
         }
         else
         {
            if( result != TX_OK) violation( "commit fails with all conversations in the transaction done", what);
            w.transaction = false;
            vk::cover( "commit");
         }
         if( ! w.transaction) for( auto& c : w.conversations) c.transaction = false;
      }

      std::vector< Action> operations( World& w, int conversations)
      {
         std::vector< Action> result;
         auto add = [&]( std::string text, auto action){ result.push_back( { std::move( text), action});};
         if( int( w.conversations.size()) < conversations)
         {
            add( "connect", [&w](){ connect( w, Target::served, TPSENDONLY);});
            add( "connect to receive", [&w](){ connect( w, Target::served, TPRECVONLY);});
            if( w.transaction) add( "connect not in transaction", [&w](){ connect( w, Target::served, TPSENDONLY | TPNOTRAN);});
            add( "connect absent", [&w](){ connect( w, Target::absent, TPSENDONLY);});
            add( "connect gone", [&w](){ connect( w, Target::gone, TPSENDONLY);});
         }
         std::set< int> descriptors;
         for( auto& c : w.conversations) if( c.open) descriptors.insert( c.descriptor);
         int invalid = -1;
         for( auto s : w.stale) if( ! descriptors.count( s)) invalid = s;
         if( invalid == -1) for( invalid = 0; descriptors.count( invalid);) ++invalid;
         descriptors.insert( invalid);
         for( auto d : descriptors)
         {
            auto suffix = " " + std::to_string( d);
            add( "send" + suffix, [&w, d](){ send( w, d, 0);});
            if( d != invalid) add( "send, hand over" + suffix, [&w, d](){ send( w, d, TPRECVONLY);});
            add( "receive" + suffix, [&w, d](){ receive( w, d, 0);});
            if( d != invalid) add( "poll" + suffix, [&w, d](){ receive( w, d, TPNOBLOCK);});
            add( "disconnect" + suffix, [&w, d](){ disconnect( w, d);});
         }
         if( w.transactions && ! w.transaction && w.begun < 2) add( "begin", [&w](){ if( ::tx_begin() != TX_OK) violation( "begin fails"); w.transaction = true; ++w.begun;});
         if( w.transaction)
         {
            add( "commit", [&w](){ commit( w);});
            if( ! pending( w)) add( "rollback", [&w]()
            {
               auto result = ::tx_rollback();
               if( result != TX_OK) violation( "rollback fails", std::to_string( result));
               w.transaction = w.rollback_only = false;
               for( auto& c : w.conversations) c.transaction = false;
            });
         }
         return result;
      }

      void step( std::vector< Action> actions, const char* what)
      {
         std::vector< std::string> names;
         for( auto& a : actions) names.push_back( a.name);
         auto index = vk::choose( names, what);
         vk::transition();
         actions[ index].apply();
      }

      void run()
      {
         auto& w = *new World;
         boot();
         std::vector< std::string> scenarios{ "one", "two"};
         if( vk::thorough()) scenarios.push_back( "three");
         auto scenario = vk::choose( scenarios, "scenario");
         const int conversations = scenario + 1;
         peers( w, conversations);
         w.transactions = true;
         limit = std::vector< int>{ vk::thorough() ? 18 : 14, vk::thorough() ? 11 : 8, 8}[ scenario];

         waiting = [&w]()
         {
            if( w.blocked.empty()) violation( "an operation that shall not wait waits", state( w));
            if( depth >= limit + 2) vk::finish( "cut");
            vk::visit_or_finish( state( w), limit - depth);
            auto actions = environment( w);
            if( actions.empty()) violation( "waits forever", w.blocked);
            ++depth;
            step( std::move( actions), "while waiting");
         };

         for( ; depth < limit; ++depth)
         {
            vk::visit_or_finish( state( w), limit - depth);
            auto actions = operations( w, conversations);
            for( auto& a : environment( w)) actions.push_back( std::move( a));
            step( std::move( actions), "operation");
         }
         for( auto& c : w.conversations) if( c.open) disconnect( w, c.descriptor);
         if( w.transaction) commit( w);
         if( cc::service::conversation::context().pending()) violation( "conversations are held when none is open");
         vk::finish();
      }
   }
}

int main( int argc, char** argv)
{
   return vkc::main( argc, argv, { .rule = "every operation sequence within the bounds, with every order of what the servers, the service manager and the transaction manager do",
      .assumptions = { "one thread in the calling process", "messages are not lost between processes that live"}}, []( const std::string& property)
   {
      if( property == "X02") call::run();
      else conversation::run();
   });
}
