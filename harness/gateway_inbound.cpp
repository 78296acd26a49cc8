//! the real casual-gateway-inbound-group on the virtual kernel: remote domains ask, the local domain answers (or not)
#include "gateway.h"

#include "common/message/dispatch/handle.h"
#include "gateway/group/inbound/handle.h"
#include "gateway/group/inbound/state.h"

#include <regex>

namespace in = casual::gateway::group::inbound;

in::handle::external_handler wrapped( in::State&) asm( "__wrap__ZN6casual7gateway5group7inbound6handle8externalERNS2_5StateE");
in::handle::external_handler native( in::State&) asm( "__real__ZN6casual7gateway5group7inbound6handle8externalERNS2_5StateE");
extern "C" int sut_main( int, const char**);

namespace
{
   using namespace vkg;
   namespace lookup = casual::common::message::service::lookup;
   in::State* sut_state{};
}

in::handle::external_handler wrapped( in::State& state)
{
   sut_state = &state;
   return native( state);
}

namespace
{
   enum class Kind { call, forget, enqueue, dequeue, converse, discover, prepare, commit, rollback};

   std::string name( Kind kind)
   {
      static const char* names[] = { "call", "call without reply", "enqueue", "dequeue", "conversation", "discovery", "prepare", "commit", "rollback"};
      return names[ int( kind)];
   }

   bool resource( Kind kind) { return kind == Kind::prepare || kind == Kind::commit || kind == Kind::rollback;}
   bool service( Kind kind) { return kind == Kind::call || kind == Kind::forget || kind == Kind::converse;}
   bool queue( Kind kind) { return kind == Kind::enqueue || kind == Kind::dequeue;}

   enum class Lookup { none, asked, idle, absent, timeout};

   struct Request
   {
      Kind kind{};
      int number{};
      int connection{};
      cc::strong::correlation::id correlation;
      cc::transaction::ID trid;    //!< the remote's
      Lookup lookup{};
      bool discarded{};
      bool dead{};                 //!< looked up to a process that is gone
      bool branch_asked{}, branched{};
      bool forwarded{};            //!< the local server/group/manager has it
      bool replied{}, error{};     //!< ... and has answered
      bool gone{};                 //!< the callee died with it
      int answers{};
      // conversation
      bool connected{}, ended{}, disconnected{}, server_told{}, remote_told{};
      int local_sends{}, remote_sends{}, local_received{}, remote_received{};
      std::string text() const
      {
         std::ostringstream out;
         out << name( kind)[ 0] << int( kind) << connection << bool( trid) << int( lookup) << discarded << dead << branch_asked << branched << forwarded << replied << error << gone << answers
            << connected << ended << disconnected << server_told << remote_told << local_sends << remote_sends << local_received << remote_received << '|';
         return out.str();
      }
   };

   struct World
   {
      std::string scenario;
      // bounds
      std::vector< Kind> kinds;
      int max_requests = 2, max_losses = 1, max_deaths = 0, max_errors = 1, max_full = 0, max_batches = 0, max_sends = 0, max_shutdowns = 0, max_slow = 0, max_absent = 1;
      bool with_trid = true, without_trid = true, reconnect = false, queue_manager = true;
      bool slow_branch = false;                     //!< though prompt, branches are not answered at once
      bool prompt = false;                          //!< lookups and branches are answered at once
      bool loopback = false;                        //!< the domain is connected to it self: its transaction is the one of the remote
      std::vector< Version> versions{ Version::current};
      int forward = -1;                             //!< index of connection with discovery forward
      int limit = 8;
      // state
      std::vector< std::unique_ptr< Remote>> connections;
      std::vector< int> current;                    //!< address -> connection, or -1
      std::vector< Request> requests;
      vkc::Peer* service_manager{};
      vkc::Peer* tm{};
      vkc::Peer* queue{};
      vkc::Peer* group{};
      vkc::Peer* server{};
      vkc::Peer* discovery{};
      std::set< std::string> destroyed, registered;
      std::set< int> asked_disconnect, answered_disconnect, decided_at;
      bool finished{}, branched{};                  //!< the transaction, in this domain
      int losses{}, deaths{}, errors{}, fulls{}, batches{}, shutdowns{}, slows{}, absents{}, held{};
      bool shutdown{}, hold{}, started{};
      int depth{};
      int spawning = -1;
   };
   World& w = *new World;

   [[noreturn]] void violation( const std::string& kind, const std::string& text = "") { vk::violation( "gateway inbound: " + kind, "[" + w.scenario + "] " + text);}

   Remote& remote( int connection) { return *w.connections[ connection];}
   int address( int connection) { return remote( connection).name.back() - '0';}
   bool lost( const Request& r) { return ! remote( r.connection).open;}
   bool modern( Version v) { return casual::gateway::message::protocol::compatible< msg::service::call::callee::Request>( v);}
   bool modern_queue( Version v) { return casual::gateway::message::protocol::compatible< qg::enqueue::Reply>( v);}
   bool modern_discovery( Version v) { return casual::gateway::message::protocol::compatible< disc::Reply>( v);}
   bool forwards( int connection) { return address( connection) == w.forward;}

   const cc::Uuid& gtrid() { static auto value = vkc::uuid( 0x51, 0); return value;}
   cc::transaction::ID external( int connection)
   {
      return cc::transaction::ID{ gtrid(), vkc::uuid( 0x53, connection), cc::process::Handle{ cc::strong::process::id{ 4711 + connection}, cc::strong::ipc::id{ vkc::uuid( 0x54, connection)}}};
   }
   cc::transaction::ID internal()
   {
      if( w.loopback) return external( 0);
      return cc::transaction::ID{ gtrid(), vkc::uuid( 0x52, 0), w.tm->handle};
   }
   cc::transaction::global::ID global() { return cc::transaction::global::ID{ cc::transaction::id::range::global( internal())};}

   std::string requested( int number) { return "service" + std::to_string( number);}
   std::string real( int number) { return "real" + std::to_string( number);}
   constexpr auto remaining = std::chrono::seconds{ 42};

   Request& find( const cc::strong::correlation::id& correlation, const std::string& where)
   {
      for( auto& r : w.requests) if( r.correlation == correlation) return r;
      violation( "unknown correlation", where);
   }

   std::string id( const Request& r) { return name( r.kind) + " " + std::to_string( r.number);}

   void look( Request& r, Lookup state);
   void branch( Request& r);
   void closed();

   // ------------------------------------------------------------------ the local domain

   //! a request on behalf of a connection names the process handle of the connection
   void owner( Request& r, const cc::process::Handle& process, const std::string& what)
   {
      auto& c = remote( r.connection);
      vk::evaluated();
      if( ! process.ipc) violation( "a request does not tell where the reply should go", what);
      if( ! c.handle.ipc)
      {
         for( auto& other : w.connections)
            if( other.get() != &c && other->handle.ipc == process.ipc) violation( "two connections share a handle", what);
         c.handle = process;
      }
      else if( c.handle.ipc != process.ipc) violation( "the reply would go to another connection", what);
   }

   void arrived( Request& r, const cc::process::Handle& process, const std::string& content, const cc::transaction::ID& trid, bool dies)
   {
      vk::evaluated();
      if( r.forwarded) violation( "delivered twice", id( r));
      owner( r, process, id( r));
      r.forwarded = true;
      if( ! resource( r.kind))
      {
         if( r.lookup != Lookup::idle) violation( "delivered though the lookup did not give a place", id( r));
         if( r.discarded) violation( "delivered though the lookup was discarded", id( r));
         if( r.trid && ! r.branched && ! w.branched) violation( "delivered before the transaction is known here", id( r));
      }
      if( r.kind != Kind::dequeue && ! resource( r.kind) && content != "request " + std::to_string( r.number)) violation( "the request is altered", id( r) + " content: " + content);
      if( r.trid)
      {
         if( trid != internal()) violation( "another transaction than the one of this domain", id( r) + ": " + vkc::text( trid));
      }
      else if( trid) violation( "a transaction comes from nowhere", id( r));
      ( void)dies;
   }

   void serve()
   {
      auto& sm = vkc::peer( "service-manager", 0x11, 1);
      w.service_manager = &sm;
      vkc::domain().singleton( cc::communication::instance::identity::service::manager, sm.handle);
      sm.on< lookup::Request>( []( auto& m)
      {
         auto& r = find( m.correlation, "lookup");
         vk::evaluated();
         if( ! service( r.kind) || r.lookup != Lookup::none) violation( "looked up more than once", id( r));
         r.lookup = Lookup::asked;
         owner( r, m.process, "lookup");
         if( m.requested != requested( r.number)) violation( "another service is looked up", m.requested);
         if( ( m.context.semantic == decltype( m.context.semantic)::no_reply) != ( r.kind == Kind::forget)) violation( "the lookup has the wrong semantic");
         if( m.context.requester != ( forwards( r.connection) ? lookup::request::context::Requester::external_discovery : lookup::request::context::Requester::external))
            violation( "the lookup does not tell that the request comes from another domain as configured", vkc::text( m.context));
         if( r.trid ? m.gtrid != global() : bool( m.gtrid)) violation( "the lookup has another transaction", vkc::text( m.gtrid));
         if( w.prompt) look( r, Lookup::idle);
      });
      sm.on< lookup::discard::Request>( []( auto& m)
      {
         auto& r = find( m.correlation, "discard");
         vk::evaluated();
         closed();
         if( ! lost( r)) violation( "a lookup is discarded on a working connection", id( r));
         if( r.discarded) violation( "a lookup is discarded twice", id( r));
         if( r.lookup == Lookup::none) violation( "a lookup that was never asked for is discarded", id( r));
         if( r.forwarded && r.kind != Kind::forget) violation( "the reservation is discarded though the callee works with it", id( r));
         if( m.requested != requested( r.number) && m.requested != real( r.number)) violation( "another lookup is discarded", m.requested);
         if( m.reply) violation( "a discard that no one waits for wants a reply");
         r.discarded = true;
      });

      w.tm = &vkc::peer( "transaction-manager", 0x13, 1);
      vkc::domain().singleton( cc::communication::instance::identity::transaction::manager, w.tm->handle);
      w.tm->on< txm::inbound::branch::Request>( []( auto& m)
      {
         auto& r = find( m.correlation, "branch");
         vk::evaluated();
         if( ! r.trid || r.branch_asked) violation( "a branch that is not needed", id( r));
         r.branch_asked = true;
         owner( r, m.process, "branch");
         if( m.gtrid != global()) violation( "a branch of another transaction");
         if( w.prompt && ! w.slow_branch) branch( r);
      });
      w.tm->on< txm::active::Request>( []( auto& m)
      {
         txm::active::Reply reply;
         reply.correlation = m.correlation;
         if( w.branched && ! w.finished)
            reply.gtrids = m.gtrids;
         vkc::push( m.process.ipc, reply);
      });
      auto decision = []( Kind kind)
      {
         return [kind]( auto& m)
         {
            auto& r = find( m.correlation, "resource request");
            if( r.kind != kind) violation( "another request", name( kind));
            arrived( r, m.process, "", m.trid, false);
            if( m.resource.value() != 5) violation( "the request is altered", id( r) + " resource");
         };
      };
      w.tm->on< tr::prepare::Request>( decision( Kind::prepare));
      w.tm->on< tr::commit::Request>( decision( Kind::commit));
      w.tm->on< tr::rollback::Request>( decision( Kind::rollback));

      auto& server = *( w.server = &vkc::peer( "server", 0x16, 1));
      server.on< msg::service::call::callee::Request>( []( auto& m)
      {
         auto& r = find( m.correlation, "call at server");
         arrived( r, m.process, text( m.buffer), m.trid, true);
         if( m.service.name != real( r.number) || m.service.requested != requested( r.number)) violation( "the request is altered", "service: " + vkc::text( m.service));
         if( m.parent.service != "parent" || m.deadline.remaining != remaining) violation( "the request is altered", "call");
         if( ( r.kind == Kind::forget) != casual::common::flag::contains( m.flags, decltype( m.flags)::no_reply)) violation( "flags are altered");
      });
      server.on< conv::connect::callee::Request>( []( auto& m)
      {
         auto& r = find( m.correlation, "connect at server");
         arrived( r, m.process, text( m.buffer), m.trid, true);
         if( m.service.name != real( r.number) || m.service.requested != requested( r.number)) violation( "the request is altered", "service: " + vkc::text( m.service));
         if( m.duplex != conv::duplex::Type::send || m.parent.service != "parent") violation( "the request is altered", "connect");
      });
      server.on< conv::callee::Send>( []( auto& m)
      {
         auto& r = find( m.correlation, "send at server");
         vk::evaluated();
         if( text( m.buffer) != "send " + std::to_string( r.local_received) || r.local_received >= r.remote_sends) violation( "conversation content differs", text( m.buffer));
         ++r.local_received;
      });
      server.on< conv::Disconnect>( []( auto& m)
      {
         auto& r = find( m.correlation, "disconnect at server");
         vk::evaluated();
         if( ! r.disconnected && ! lost( r)) violation( "a disconnect that no one asked for");
         r.server_told = true;
      });

      if( w.queue_manager)
      {
         w.queue = &vkc::peer( "queue-manager", 0x12, 1);
         vkc::domain().singleton( cc::communication::instance::identity::queue::manager, w.queue->handle);
         w.queue->on< casual::queue::ipc::message::lookup::Request>( []( auto& m)
         {
            auto& r = find( m.correlation, "queue lookup");
            vk::evaluated();
            if( ! queue( r.kind) || r.lookup != Lookup::none) violation( "looked up more than once", id( r));
            r.lookup = Lookup::asked;
            owner( r, m.process, "queue lookup");
            if( m.name != requested( r.number)) violation( "another queue is looked up", m.name);
            if( m.context.semantic != decltype( m.context.semantic)::direct) violation( "the lookup has the wrong semantic");
            using Requester = decltype( m.context.requester);
            if( m.context.requester != ( forwards( r.connection) ? Requester::external_discovery : Requester::external))
               violation( "the lookup does not tell that the request comes from another domain as configured");
            if( w.prompt) look( r, Lookup::idle);
         });
      }
      w.group = &vkc::peer( "group", 0x17, 1);
      w.group->on< qg::enqueue::Request>( []( auto& m)
      {
         auto& r = find( m.correlation, "enqueue at group");
         arrived( r, m.process, std::string( reinterpret_cast< const char*>( m.message.payload.data.data()), m.message.payload.data.size()), m.trid, true);
         if( m.name != requested( r.number)) violation( "the request is altered", "enqueue");
      });
      w.group->on< qg::dequeue::Request>( []( auto& m)
      {
         auto& r = find( m.correlation, "dequeue at group");
         arrived( r, m.process, "", m.trid, true);
         if( m.name != requested( r.number)) violation( "the request is altered", "dequeue");
      });

      w.discovery = &vkc::peer( "discovery", 0x14, 1);
      vkc::domain().singleton( casual::domain::discovery::instance::identity, w.discovery->handle);
      w.discovery->on< disc::api::provider::registration::Request>( []( auto& m)
      {
         w.registered.insert( vkc::text( m.process.ipc));
         vkc::push( m.process.ipc, cc::message::reverse::type( m));
      });
      w.discovery->on< disc::Request>( []( auto& m)
      {
         auto& r = find( m.correlation, "discovery");
         vk::evaluated();
         if( r.forwarded) violation( "delivered twice", id( r));
         r.forwarded = true;
         owner( r, m.process, "discovery");
         if( m.content.services != std::vector< std::string>{ requested( r.number)}) violation( "the request is altered", "discovery");
         if( ( m.directive == decltype( m.directive)::forward) != forwards( r.connection)) violation( "discovery goes on though not configured so, or the other way");
      });

      auto& manager = vkc::peer( "gateway-manager", 0x15, 1);
      vkc::domain().singleton( cc::communication::instance::identity::gateway::manager, manager.handle);
      manager.on< casual::gateway::message::inbound::Connect>( []( auto& m)
      {
         casual::gateway::message::inbound::configuration::update::Request request{ vkc::peers().at( "gateway-manager")->handle};
         request.correlation = cc::strong::correlation::id{ vkc::uuid( 0x15, 7)};
         request.model.alias = "in";
         for( int i = 0; i < int( w.current.size()); ++i)
         {
            auto& connection = request.model.connections.emplace_back();
            connection.address = "127.0.0.1:770" + std::to_string( i);
            if( i == w.forward) connection.discovery = decltype( connection.discovery)::forward;
         }
         vkc::push( m.process.ipc, request);
      });
      manager.on< casual::gateway::message::inbound::configuration::update::Reply>( []( auto&){});

      vkc::domain().peer->on< msg::event::ipc::Destroyed>( []( auto& m){ w.destroyed.insert( vkc::text( m.process.ipc));});
   }

   // ------------------------------------------------------------------ the remote domains

   void answered( Request& r, int connection, bool failed, const std::string& content)
   {
      vk::evaluated();
      if( r.connection != connection) violation( "answered on another connection", id( r));
      if( r.kind == Kind::forget) violation( "a reply to a call without reply");
      if( ++r.answers > 1) violation( "answered more than once", id( r));
      if( r.replied)
      {
         if( content != "reply " + std::to_string( r.number)) violation( "the reply differs from what was given", id( r) + ": " + content);
         if( failed != r.error) violation( "the outcome differs from what was given", id( r));
         return;
      }
      bool excuse = r.lookup == Lookup::absent || r.lookup == Lookup::timeout || r.gone || r.dead || ( queue( r.kind) && ! w.queue_manager);
      if( ! failed) violation( "something that was never done seems to have worked", id( r));
      if( ! excuse) violation( "answered with an error before anything has failed", id( r));
   }

   void listen( int connection)
   {
      auto& c = remote( connection);
      auto own = [connection]( auto& m, Kind kind) -> Request&
      {
         auto& r = find( m.correlation, "reply " + name( kind));
         if( r.connection != connection) violation( "answered on another connection", id( r));
         if( r.kind != kind && ! ( kind == Kind::call && r.kind == Kind::forget)) violation( "a reply of another kind", id( r));
         return r;
      };
      auto call = [connection, own]( auto& m, auto state)
      {
         auto& r = own( m, Kind::call);
         if( r.replied && ! r.error && m.code.user != r.number) violation( "the reply differs from what was given", "user code");
         if( r.replied && r.error && m.code.result != cc::code::xatmi::service_fail) violation( "the reply differs from what was given", "code");
         if( r.replied && r.trid && ( state == msg::service::transaction::State::rollback) != r.error) violation( "the reply differs from what was given", "transaction state");
         if( ! r.replied && r.lookup == Lookup::absent && m.code.result != cc::code::xatmi::no_entry) violation( "an unknown service is told as another error");
         if( ! r.replied && r.lookup == Lookup::timeout && m.code.result != cc::code::xatmi::timeout) violation( "a timeout is told as another error");
         answered( r, connection, m.code.result != cc::code::xatmi::ok, text( m.buffer));
      };
      c.on< msg::service::call::Reply>( [&c, call]( auto& m)
      {
         if( ! modern( c.version)) violation( "a message that this version does not have", "call reply");
         call( m, m.transaction_state);
      });
      c.on< msg::service::call::v1_2::Reply>( [&c, call]( auto& m)
      {
         if( modern( c.version)) violation( "an old message on a new connection", "call reply");
         call( m, m.transaction.state);
      });
      c.on< conv::connect::Reply>( [connection, own]( auto& m)
      {
         auto& r = own( m, Kind::converse);
         bool failed = m.code.result != cc::code::xatmi::ok && m.code.result != cc::code::xatmi::absent;
         answered( r, connection, failed, r.replied ? "reply " + std::to_string( r.number) : "");
         if( failed) r.remote_told = true;
      });
      c.on< conv::callee::Send>( [own]( auto& m)
      {
         auto& r = own( m, Kind::converse);
         vk::evaluated();
         if( r.disconnected) return;
         if( m.duplex == conv::duplex::Type::terminated && r.gone && r.remote_received == r.local_sends)
         {
            r.remote_told = true;
            return;
         }
         if( text( m.buffer) != "send " + std::to_string( r.remote_received) || r.remote_received >= r.local_sends) violation( "conversation content differs", text( m.buffer));
         ++r.remote_received;
         bool last = r.ended && r.remote_received == r.local_sends;
         if( ( m.duplex == conv::duplex::Type::terminated) != last) violation( "the end of a conversation is not as given");
         if( last) r.remote_told = true;
      });
      auto enqueue = [connection, own]( auto& m)
      {
         auto& r = own( m, Kind::enqueue);
         answered( r, connection, ! m.id, m.id == vkc::uuid( 0x71, r.number) || ( ! m.id && r.error) ? "reply " + std::to_string( r.number) : "");
      };
      c.on< qg::enqueue::Reply>( [&c, enqueue]( auto& m)
      {
         if( ! modern_queue( c.version)) violation( "a message that this version does not have", "enqueue reply");
         if( ! m.id && m.code == cc::code::queue::ok) violation( "an enqueue without result is told to be ok");
         enqueue( m);
      });
      c.on< qg::enqueue::v1_2::Reply>( [&c, enqueue]( auto& m)
      {
         if( modern_queue( c.version)) violation( "an old message on a new connection", "enqueue reply");
         enqueue( m);
      });
      auto dequeue = [connection, own]( auto& m, const qg::dequeue::Message* message)
      {
         auto& r = own( m, Kind::dequeue);
         auto content = message ? std::string( reinterpret_cast< const char*>( message->payload.data.data()), message->payload.data.size()) : r.error ? "reply " + std::to_string( r.number) : "";
         answered( r, connection, ! message, content);
      };
      c.on< qg::dequeue::Reply>( [&c, dequeue]( auto& m)
      {
         if( ! modern_queue( c.version)) violation( "a message that this version does not have", "dequeue reply");
         if( ! m.message && m.code == cc::code::queue::ok) violation( "a dequeue without a message is told to be ok");
         dequeue( m, m.message ? &*m.message : nullptr);
      });
      c.on< qg::dequeue::v1_2::Reply>( [&c, dequeue]( auto& m)
      {
         if( modern_queue( c.version)) violation( "an old message on a new connection", "dequeue reply");
         dequeue( m, m.message.empty() ? nullptr : &m.message.front());
      });
      auto discovered = [connection, own]( auto& m)
      {
         auto& r = own( m, Kind::discover);
         std::string content;
         if( m.content.services.size() == 1 && m.content.services[ 0].name == requested( r.number) && m.content.queues.size() == 1 && m.content.queues[ 0].name == "queue" + std::to_string( r.number))
         {
            auto& queue = m.content.queues[ 0];
            long count = 0;
            if constexpr( requires{ queue.retries;}) count = queue.retries; else count = queue.retry.count;
            if( count == 3) content = "reply " + std::to_string( r.number);
         }
         answered( r, connection, false, content);
      };
      c.on< disc::Reply>( [&c, discovered]( auto& m)
      {
         if( ! modern_discovery( c.version)) violation( "a message that this version does not have", "discovery reply");
         discovered( m);
      });
      c.on< disc::v1_3::Reply>( [&c, discovered]( auto& m)
      {
         if( modern_discovery( c.version)) violation( "an old message on a new connection", "discovery reply");
         discovered( m);
      });
      auto decision = [connection, own]( Kind kind)
      {
         return [connection, own, kind]( auto& m)
         {
            auto& r = own( m, kind);
            answered( r, connection, m.state != cc::code::xa::ok, r.replied ? "reply " + std::to_string( r.number) : "");
            if( m.trid != r.trid) violation( "the reply has another transaction than the one of the remote", id( r) + " " + vkc::text( m.trid) + " expected: " + vkc::text( r.trid));
            if( m.resource.value() != 5) violation( "the reply differs from what was given", id( r) + " resource");
         };
      };
      c.on< tr::prepare::Reply>( decision( Kind::prepare));
      c.on< tr::commit::Reply>( decision( Kind::commit));
      c.on< tr::rollback::Reply>( decision( Kind::rollback));
      c.on< casual::gateway::message::domain::disconnect::Request>( [connection, &c]( auto&)
      {
         if( ! casual::gateway::message::protocol::compatible< casual::gateway::message::domain::disconnect::Request>( c.version)) violation( "a message that this version does not have", "disconnect");
         if( ! w.shutdown) violation( "a disconnect that no one asked for");
         w.asked_disconnect.insert( connection);
      });
   }

   // ------------------------------------------------------------------ connections

   //! the remote expects something
   bool outstanding( const Request& r)
   {
      if( lost( r)) return false;
      if( r.kind == Kind::forget) return ! r.forwarded && r.lookup != Lookup::absent && r.lookup != Lookup::timeout && ! r.dead;
      if( r.kind == Kind::converse)
      {
         if( r.disconnected) return ! r.server_told && ! r.gone;
         return ! r.remote_told;
      }
      return r.answers == 0;
   }

   void closed()
   {
      for( int c = 0; c < int( w.connections.size()); ++c)
      {
         auto& x = remote( c);
         if( ! x.open || ( x.stream() && ! x.stream()->closed)) continue;
         bool handshake = casual::gateway::message::protocol::compatible< casual::gateway::message::domain::disconnect::Request>( x.version);
         if( ! w.shutdown) violation( "a connection is closed for no reason", x.name);
         if( handshake)
         {
            if( ! w.answered_disconnect.contains( c)) violation( "a connection is closed though the remote has not agreed", x.name);
            for( auto& r : w.requests) if( r.connection == c && outstanding( r)) violation( "a connection is closed with requests outstanding", x.name + " " + id( r));
            if( ! w.finished)
               for( auto& r : w.requests) if( r.connection == c && r.trid && r.answers && ! w.decided_at.contains( c)) violation( "a connection is closed though its transaction is not decided", x.name);
         }
         x.open = false;
         if( w.current[ address( c)] == c) w.current[ address( c)] = -1;
      }
   }

   int listener( int a)
   {
      for( auto& [ fd, waiting] : vk::kernel::listeners())
         if( vk::kernel::ports()[ fd] == 7700 + a) return fd;
      return -1;
   }

   void connect( int a)
   {
      auto fd = listener( a);
      if( fd == -1) violation( "an address is not listened to", std::to_string( a));
      ++vk::kernel::listeners()[ fd];
   }

   void setup()
   {
      vk::kernel::on_accept = []( int listener, vk::kernel::Stream& stream)
      {
         closed();
         auto c = std::make_unique< Remote>();
         auto a = vk::kernel::ports()[ listener] - 7700;
         c->name = "D" + std::to_string( a);
         c->version = w.versions[ a];
         c->attach( stream);
         w.connections.push_back( std::move( c));
         int id = w.connections.size() - 1;
         w.current[ a] = id;
         listen( id);
         w.spawning = id;
      };
      vk::kernel::on_spawn = []( auto&, auto&, auto&)
      {
         if( w.spawning == -1) vk::broken( "unexpected spawn");
         auto id = std::exchange( w.spawning, -1);
         casual::gateway::message::domain::Connected message;
         message.connector = cc::strong::process::id{ 7000 + id};
         message.domain = cc::domain::Identity{ cc::strong::domain::id{ vkc::uuid( 0x41, address( id))}, remote( id).name};
         message.version = remote( id).version;
         vkc::to_self( message);
         return 7000 + id;
      };
      vk::kernel::on_wait = []( pid_t, int*, int) -> pid_t { return 0;};
      serve();
   }

   // ------------------------------------------------------------------ actions

   void request( Kind kind, int connection, bool with_trid)
   {
      Request r;
      r.kind = kind;
      r.number = w.requests.size();
      r.connection = connection;
      r.correlation = cc::strong::correlation::id{ vkc::uuid( 0x31, r.number)};
      if( with_trid) r.trid = external( connection);
      w.requests.push_back( r);
      auto& c = remote( connection);
      auto content = "request " + std::to_string( r.number);

      auto common = [&]( auto& m)
      {
         m.correlation = r.correlation;
         if constexpr( requires{ m.trid;}) m.trid = r.trid;
      };
      auto call = [&]( auto m)
      {
         common( m);
         m.service.name = requested( r.number);
         m.buffer = payload( content);
         if constexpr( requires{ m.parent.service;}) { m.parent.service = "parent"; m.deadline.remaining = remaining;}
         else { m.parent = "parent"; m.service.timeout.duration = remaining;}
         if constexpr( requires{ m.flags;}) { if( kind == Kind::forget) m.flags = decltype( m.flags)::no_reply;}
         if constexpr( requires{ m.duplex;}) m.duplex = conv::duplex::Type::send;
         c.push( m);
      };
      auto transaction = [&]( auto m)
      {
         common( m);
         m.resource = decltype( m.resource){ 5};
         c.push( m);
      };
      switch( kind)
      {
         case Kind::call: case Kind::forget:
            if( modern( c.version)) call( msg::service::call::callee::Request{}); else call( msg::service::call::v1_2::callee::Request{});
            break;
         case Kind::converse:
            if( modern( c.version)) call( conv::connect::callee::Request{}); else call( conv::connect::v1_2::callee::Request{});
            break;
         case Kind::enqueue:
         {
            qg::enqueue::Request m;
            common( m);
            m.name = requested( r.number);
            m.message.payload.type = ".binary/";
            for( auto x : content) m.message.payload.data.push_back( std::byte( x));
            c.push( m);
            break;
         }
         case Kind::dequeue:
         {
            qg::dequeue::Request m;
            common( m);
            m.name = requested( r.number);
            c.push( m);
            break;
         }
         case Kind::discover:
         {
            disc::Request m;
            common( m);
            m.content.services = { requested( r.number)};
            c.push( m);
            break;
         }
         case Kind::prepare: transaction( tr::prepare::Request{}); break;
         case Kind::commit: w.decided_at.insert( connection); transaction( tr::commit::Request{}); break;
         case Kind::rollback: w.decided_at.insert( connection); transaction( tr::rollback::Request{}); break;
      }
   }

   //! someone in the domain answers
   template< typename M>
   void reply( const Request& r, M m)
   {
      m.correlation = r.correlation;
      vkc::push( remote( r.connection).handle.ipc, m);
   }

   void look( Request& r, Lookup state)
   {
      r.lookup = state;
      if( service( r.kind))
      {
         lookup::Reply m;
         m.service.name = state == Lookup::idle ? real( r.number) : requested( r.number);
         if( state == Lookup::idle)
         {
            m.process = w.server->handle;
            r.dead = ! w.server->alive;
         }
         m.state = state == Lookup::idle ? lookup::reply::State::idle : state == Lookup::absent ? lookup::reply::State::absent : lookup::reply::State::timeout;
         reply( r, m);
      }
      else
      {
         casual::queue::ipc::message::lookup::Reply m;
         m.name = requested( r.number);
         if( state == Lookup::idle)
         {
            m.process = w.group->handle;
            m.queue = cc::strong::queue::id{ 10 + r.number};
            r.dead = ! w.group->alive;
         }
         reply( r, m);
      }
   }

   void branch( Request& r)
   {
      r.branched = true;
      w.branched = true;
      txm::inbound::branch::Reply m;
      m.trid = internal();
      reply( r, m);
   }

   void answer( Request& r, bool error)
   {
      r.replied = true;
      r.error = error;
      auto content = "reply " + std::to_string( r.number);
      switch( r.kind)
      {
         case Kind::call: case Kind::forget:
         {
            msg::service::call::Reply m;
            m.code.result = error ? cc::code::xatmi::service_fail : cc::code::xatmi::ok;
            m.code.user = r.number;
            m.buffer = payload( content);
            if( error && r.trid) m.transaction_state = decltype( m.transaction_state)::rollback;
            reply( r, m);
            break;
         }
         case Kind::converse:
         {
            conv::connect::Reply m;
            m.code.result = error ? cc::code::xatmi::no_entry : cc::code::xatmi::absent;
            r.connected = ! error;
            if( error) r.ended = true;
            reply( r, m);
            break;
         }
         case Kind::enqueue:
         {
            qg::enqueue::Reply m;
            if( error) m.code = cc::code::queue::no_queue; else m.id = vkc::uuid( 0x71, r.number);
            reply( r, m);
            break;
         }
         case Kind::dequeue:
         {
            qg::dequeue::Reply m;
            if( error) m.code = cc::code::queue::no_message;
            else
            {
               m.message.emplace();
               m.message->id = vkc::uuid( 0x71, r.number);
               for( auto x : content) m.message->payload.data.push_back( std::byte( x));
            }
            reply( r, m);
            break;
         }
         case Kind::discover:
         {
            disc::Reply m;
            m.domain.name = "here";
            m.content.services.emplace_back().name = requested( r.number);
            auto& queue = m.content.queues.emplace_back();
            queue.name = "queue" + std::to_string( r.number);
            queue.retry.count = 3;
            reply( r, m);
            break;
         }
         default:
         {
            auto fill = [&]( auto m)
            {
               m.trid = internal();
               m.resource = decltype( m.resource){ 5};
               m.state = error ? cc::code::xa::resource_fail : cc::code::xa::ok;
               reply( r, m);
            };
            if( r.kind == Kind::prepare) fill( tr::prepare::Reply{});
            else if( r.kind == Kind::commit) fill( tr::commit::Reply{});
            else fill( tr::rollback::Reply{});
         }
      }
   }

   void lose( int connection, bool reset)
   {
      ++w.losses;
      w.current[ address( connection)] = -1;
      remote( connection).close( reset);
   }

   bool outstanding_in_transaction( int connection)
   {
      for( auto& r : w.requests)
         if( r.connection == connection && r.trid && ( resource( r.kind) ? r.answers == 0 : outstanding( r))) return true;
      return false;
   }

   void die( vkc::Peer& peer)
   {
      ++w.deaths;
      peer.die();
      for( auto& r : w.requests)
         if( r.forwarded && ( &peer == w.server ? service( r.kind) : queue( r.kind)))
         {
            if( r.kind == Kind::call && ! r.replied)
            {
               // the service manager tells the caller
               r.gone = true;
               msg::service::call::Reply m;
               m.code.result = cc::code::xatmi::service_error;
               reply( r, m);
            }
            else if( ! r.replied || r.kind == Kind::converse)
               r.gone = true;
         }
         else if( ! resource( r.kind) && r.kind != Kind::discover && r.lookup == Lookup::idle && ! r.forwarded && ( &peer == w.server ? service( r.kind) : queue( r.kind)))
            r.dead = true;
   }

   using Action = std::pair< std::string, std::function< void()>>;

   std::vector< Action> actions()
   {
      std::vector< Action> result;
      auto add = [&]( std::string name, std::function< void()> f){ result.emplace_back( std::move( name), std::move( f));};

      if( int( w.requests.size()) < w.max_requests)
         for( int c = 0; c < int( w.connections.size()); ++c)
         {
            auto& x = remote( c);
            if( ! x.open || x.breaks) continue;
            for( auto kind : w.kinds)
            {
               if( resource( kind))
               {
                  bool any = false;
                  for( auto& r : w.requests) if( r.connection == c && r.trid && ! resource( r.kind)) any = true;
                  if( ! any || outstanding_in_transaction( c) || w.finished || w.decided_at.contains( c)) continue;
                  bool prepared = false;
                  for( auto& r : w.requests) if( r.connection == c && r.kind == Kind::prepare) prepared = true;
                  if( kind == Kind::prepare && prepared) continue;
                  add( name( kind) + " from " + x.name, [=]{ request( kind, c, true);});
                  continue;
               }
               if( w.answered_disconnect.contains( c)) continue;
               if( kind == Kind::discover) { add( "discovery from " + x.name, [=]{ request( kind, c, false);}); continue;}
               if( w.without_trid) add( name( kind) + " from " + x.name, [=]{ request( kind, c, false);});
               bool decided = w.finished || w.decided_at.contains( c);
               for( auto& r : w.requests) if( resource( r.kind)) decided = true;
               if( w.with_trid && ! decided) add( name( kind) + " in transaction from " + x.name, [=]{ request( kind, c, true);});
            }
         }

      for( int i = 0; i < int( w.requests.size()); ++i)
      {
         auto& r = w.requests[ i];
         auto what = id( r);
         if( r.lookup == Lookup::asked && ! r.discarded)
         {
            add( "lookup gives a place for " + what, [i]{ look( w.requests[ i], Lookup::idle);});
            if( w.absents < w.max_absent)
            {
               add( "lookup gives nothing for " + what, [i]{ ++w.absents; look( w.requests[ i], Lookup::absent);});
               if( service( r.kind)) add( "lookup times out for " + what, [i]{ ++w.absents; look( w.requests[ i], Lookup::timeout);});
            }
         }
         if( r.branch_asked && ! r.branched) add( "branch for " + what, [i]{ branch( w.requests[ i]);});
         auto callee = service( r.kind) ? w.server : queue( r.kind) ? w.group : r.kind == Kind::discover ? w.discovery : w.tm;
         if( r.forwarded && ! r.replied && ! r.gone && r.kind != Kind::forget && callee->alive && ! ( r.server_told))
         {
            add( what + " is answered", [i]{ answer( w.requests[ i], false);});
            if( w.errors < w.max_errors && r.kind != Kind::discover)
               add( what + " is refused", [i]{ ++w.errors; answer( w.requests[ i], true);});
         }
         if( r.kind == Kind::converse && r.connected)
         {
            if( ! r.ended && ! r.gone && ! r.server_told && r.local_sends < w.max_sends)
               for( bool last : { false, true})
                  add( std::string( "server ") + ( last ? "ends " : "sends in ") + what, [i, last]
                  {
                     auto& r = w.requests[ i];
                     conv::callee::Send m;
                     m.buffer = payload( "send " + std::to_string( r.local_sends++));
                     m.duplex = last ? conv::duplex::Type::terminated : conv::duplex::Type::receive;
                     m.code.result = last ? cc::code::xatmi::ok : cc::code::xatmi::absent;
                     if( last) r.ended = true;
                     reply( r, m);
                  });
            if( ! lost( r) && r.answers && ! r.disconnected && ! r.remote_told)
            {
               if( r.remote_sends < w.max_sends)
                  add( "remote sends in " + what, [i]
                  {
                     auto& r = w.requests[ i];
                     conv::callee::Send m;
                     m.correlation = r.correlation;
                     m.buffer = payload( "send " + std::to_string( r.remote_sends++));
                     m.duplex = conv::duplex::Type::receive;
                     remote( r.connection).push( m);
                  });
               add( "remote disconnects " + what, [i]
               {
                  auto& r = w.requests[ i];
                  r.disconnected = true;
                  conv::Disconnect m;
                  m.correlation = r.correlation;
                  remote( r.connection).push( m);
               });
            }
         }
      }

      for( int c = 0; c < int( w.connections.size()); ++c)
      {
         auto& x = remote( c);
         if( ! x.open) continue;
         if( w.losses < w.max_losses && ! x.breaks)
         {
            add( x.name + " closes", [c]{ lose( c, false);});
            add( x.name + " is reset", [c]{ lose( c, true);});
            add( x.name + " fails at the next write", [c]{ ++w.losses; w.current[ address( c)] = -1; remote( c).breaks = true;});
         }
         if( w.fulls < w.max_full && ! x.full && x.taken < 0)
         {
            add( x.name + " takes no more", [c]{ ++w.fulls; remote( c).full = true;});
            add( x.name + " takes part of a message", [c]{ ++w.fulls; remote( c).taken = 40;});
         }
         if( x.full) add( x.name + " takes again", [c]{ remote( c).full = false;});
         if( w.asked_disconnect.contains( c) && ! w.answered_disconnect.contains( c) && ! x.breaks)
         {
            bool discovering = false;
            for( auto& r : w.requests) if( r.connection == c && r.kind == Kind::discover && r.answers == 0) discovering = true;
            if( ! discovering)
               add( x.name + " agrees to disconnect", [c]
               {
                  w.answered_disconnect.insert( c);
                  casual::gateway::message::domain::disconnect::Reply m;
                  m.correlation = cc::strong::correlation::id{ vkc::uuid( 0x36, c)};
                  remote( c).push( m);
               });
         }
      }

      if( w.deaths < w.max_deaths)
      {
         bool services = false, queues = false;
         for( auto& r : w.requests) { if( service( r.kind)) services = true; if( queue( r.kind)) queues = true;}
         if( services && w.server->alive) add( "the server dies", []{ die( *w.server);});
         if( queues && w.group->alive) add( "the group dies", []{ die( *w.group);});
      }
      if( w.slows < w.max_slow)
      {
         if( w.server->alive && ! w.server->endpoint().slow) add( "the server gets slow", []{ ++w.slows; w.server->endpoint().slow = true;});
         if( w.group->alive && ! w.group->endpoint().slow && w.kinds.size() > 1) add( "the group gets slow", []{ ++w.slows; w.group->endpoint().slow = true;});
      }
      if( w.server->alive && w.server->endpoint().slow) add( "the server takes again", []{ w.server->endpoint().slow = false;});
      if( w.group->alive && w.group->endpoint().slow) add( "the group takes again", []{ w.group->endpoint().slow = false;});

      if( w.branched && ! w.finished)
      {
         bool any = false;
         for( auto& r : w.requests)
            if( ! lost( r) && r.trid && ( ( resource( r.kind) && ! r.replied) || ( ! resource( r.kind) && outstanding( r)))) any = true;
         bool decided = true;
         for( auto& r : w.requests) if( r.trid && ! lost( r) && ! w.decided_at.contains( r.connection)) decided = false;
         if( ! any && decided)
            add( "the transaction is done", []
            {
               w.finished = true;
               msg::event::transaction::Disassociate event;
               event.gtrid = global();
               vkc::to_self( event);
            });
      }

      if( w.shutdowns < w.max_shutdowns)
         add( "shutdown", []{ ++w.shutdowns; w.shutdown = true; vkc::to_self( msg::shutdown::Request{ vkc::domain().peer->handle});});

      if( w.reconnect && ! w.shutdown)
         for( int a = 0; a < int( w.current.size()); ++a)
            if( w.current[ a] == -1 && std::none_of( w.connections.begin(), w.connections.end(), [a]( auto& c){ return c->open && c->breaks && c->name.back() == '0' + a;}))
               add( std::string( "D") + std::to_string( a) + " connects", [a]{ connect( a);});

      if( w.batches < w.max_batches && w.held == 0 && ! result.empty())
         add( "two at once", []{ ++w.batches; w.hold = true;});
      return result;
   }

   void perform()
   {
      auto possible = actions();
      if( possible.empty()) vk::finish( "nothing left");
      std::vector< std::string> names;
      for( auto& a : possible) names.push_back( a.first);
      auto choice = vk::choose( names, std::to_string( w.depth + 1));
      ++w.depth;
      vk::transition();
      possible[ choice].second();
   }

   // ------------------------------------------------------------------ oracle at rest

   bool slow( const Request& r)
   {
      auto& peer = service( r.kind) ? *w.server : *w.group;
      return ! resource( r.kind) && r.kind != Kind::discover && peer.alive && peer.endpoint().slow;
   }

   void quiescent()
   {
      closed();
      for( int c = 0; c < int( w.connections.size()); ++c)
      {
         auto& x = remote( c);
         if( x.open)
         {
            if( x.handle.ipc && ( w.registered.contains( vkc::text( x.handle.ipc))) != ( forwards( c) && casual::gateway::message::protocol::compatible< disc::topology::implicit::Update>( x.version)))
               violation( "registration for topology updates is not as configured", x.name);
            continue;
         }
         if( ! x.handle.ipc) continue;
         vk::evaluated();
         if( ! w.destroyed.contains( vkc::text( x.handle.ipc))) violation( "no one is told about a lost connection", x.name);
      }
      for( auto& r : w.requests)
      {
         vk::evaluated();
         auto& x = remote( r.connection);
         if( lost( r))
         {
            bool reserved = service( r.kind) && ( r.lookup == Lookup::asked || r.lookup == Lookup::idle) && ! r.forwarded && ! r.dead;
            if( reserved && ! r.discarded && ! slow( r)) violation( "a lookup is not discarded when the connection is lost", id( r));
            if( r.kind == Kind::converse && r.forwarded && ! r.error && ! r.ended && ! r.gone && ! r.server_told && ! slow( r))
               violation( "the callee of a conversation is never told that the connection is lost", id( r));
            continue;
         }
         // should have got on
         if( r.lookup == Lookup::none && ! resource( r.kind) && r.kind != Kind::discover && ! ( queue( r.kind) && ! w.queue_manager)) violation( "never looked up", id( r));
         bool known = ! r.trid || r.branched || ! r.branch_asked;
         if( r.lookup == Lookup::idle && known && ! r.forwarded && ! r.dead && ! slow( r)) violation( "never delivered", id( r));
         if( ( resource( r.kind) || r.kind == Kind::discover) && ! r.forwarded && r.answers == 0) violation( "never delivered", id( r));
         if( r.kind == Kind::converse && ! r.gone && ! slow( r))
         {
            if( r.local_received < r.remote_sends && ! r.ended) violation( "something sent in a conversation is never delivered", id( r));
            if( r.disconnected && ! r.server_told && ! r.ended) violation( "a disconnect never reaches the callee", id( r));
         }
         if( x.full || x.taken >= 0 || x.breaks || r.kind == Kind::forget) continue;
         if( r.replied && r.answers == 0) violation( "the reply is never delivered", id( r));
         if( ( r.lookup == Lookup::absent || r.lookup == Lookup::timeout || r.dead) && known && r.answers == 0) violation( "never answered", id( r));
         if( r.gone && r.kind == Kind::call && r.answers == 0) violation( "never answered", id( r));
         if( queue( r.kind) && ! w.queue_manager && known && r.answers == 0) violation( "never answered", id( r));
         if( r.kind == Kind::converse && ! r.disconnected && r.remote_received < r.local_sends) violation( "something sent in a conversation never reaches the remote", id( r));
      }
      if( w.shutdown)
      {
         // every connection that has nothing left shall be closed
         for( int c = 0; c < int( w.connections.size()); ++c)
         {
            auto& x = remote( c);
            if( ! x.open || x.full || x.taken >= 0 || x.breaks) continue;
            bool handshake = casual::gateway::message::protocol::compatible< casual::gateway::message::domain::disconnect::Request>( x.version);
            if( ! handshake) violation( "an old connection is still open", x.name);
            if( ! w.asked_disconnect.contains( c)) violation( "a remote is never asked to disconnect", x.name);
            if( ! w.answered_disconnect.contains( c)) continue;
            bool any = false;
            for( auto& r : w.requests) if( r.connection == c && ( outstanding( r) || ( r.trid && ! w.finished))) any = true;
            if( ! any) violation( "a connection with nothing left is never closed", x.name);
         }
         if( std::none_of( w.connections.begin(), w.connections.end(), []( auto& c){ return c->open;}) && std::none_of( w.requests.begin(), w.requests.end(), []( auto& r){ return slow( r);}))
            violation( "the shutdown does not end");
      }
   }

   std::string fingerprint()
   {
      std::ostringstream out;
      out << w.scenario << '\n';
      for( auto& r : w.requests) out << r.text();
      for( auto& c : w.connections) out << c->text() << ';';
      for( auto c : w.current) out << c;
      out << w.server->alive << w.group->alive << ( w.server->alive && w.server->endpoint().slow) << ( w.group->alive && w.group->endpoint().slow);
      for( auto& set : { w.asked_disconnect, w.answered_disconnect, w.decided_at}) { for( auto i : set) out << i; out << ',';}
      out << w.losses << w.deaths << w.errors << w.fulls << w.batches << w.shutdowns << w.slows << w.absents << w.shutdown << w.finished << w.branched;
      std::string state;
      if( sut_state)
      {
         auto& s = *sut_state;
         auto part = [&]( auto&& get){ if constexpr( requires{ get( s);}) state += vkc::text( get( s));};
         part( []( auto& s) -> decltype( ( s.runlevel)) { return s.runlevel;});
         part( []( auto& s) -> decltype( ( s.connections)) { return s.connections;});
         part( []( auto& s) -> decltype( ( s.tasks)) { return s.tasks;});
         part( []( auto& s) -> decltype( ( s.pending)) { return s.pending;});
         part( []( auto& s) -> decltype( ( s.transaction_cache)) { return s.transaction_cache;});
         part( []( auto& s) -> decltype( ( s.multiplex)) { return s.multiplex;});
      }
      static const std::regex volatiles{ "0x[0-9a-f]+|created: [^,}]*|address: [0-9a-f]+"};
      out << std::regex_replace( state, volatiles, "");
      out << vk::kernel::state();
      return vk::canonical( out.str());
   }

   void step()
   {
      if( ! w.started)
      {
         for( int a = 0; a < int( w.current.size()); ++a)
            if( w.current[ a] == -1) return connect( a);
         w.started = true;
      }
      quiescent();

      vk::visit_or_finish( fingerprint(), w.limit - w.depth);
      if( w.depth >= w.limit) vk::finish();

      perform();
      if( w.hold)
      {
         w.hold = false;
         ++w.held;
         perform();
         perform();
         --w.held;
         --w.depth;
      }
   }

   struct Scenario { std::string name; std::function< void()> setup;};

   std::vector< Scenario> scenarios()
   {
      std::vector< Scenario> result;
      bool deep = vk::thorough();
      auto add = [&]( std::string name, std::function< void()> f){ result.push_back( { name, f});};
      auto current = Version::current;

      add( "calls from two remotes", [=]
      {
         w.kinds = { Kind::call}; w.versions = { current, Version::v1_2}; w.forward = 1; w.max_requests = 2; w.max_deaths = deep; w.max_batches = deep; w.limit = deep ? 10 : 7;
      });
      add( "calls from one remote", [=]
      {
         w.kinds = { Kind::call, Kind::forget}; w.max_requests = deep ? 3 : 2; w.forward = 0; w.max_deaths = 1; w.max_batches = deep; w.limit = deep ? 10 : 7;
      });
      add( "queues", [=]
      {
         w.kinds = { Kind::enqueue, Kind::dequeue}; w.versions = { current, Version::v1_2}; w.max_requests = 2; w.max_losses = 1; w.max_deaths = deep; w.max_absent = 1; w.limit = deep ? 10 : 5;
      });
      add( "queues for one remote", [=]
      {
         w.kinds = { Kind::enqueue, Kind::dequeue}; w.max_requests = 2; w.max_losses = 1; w.max_deaths = 1; w.max_errors = 1; w.limit = deep ? 10 : 6;
      });
      add( "no queue manager", [=]
      {
         w.kinds = { Kind::enqueue, Kind::dequeue, Kind::call}; w.queue_manager = false; w.max_requests = 2; w.max_losses = deep; w.limit = deep ? 9 : 7;
      });
      add( "conversations", [=]
      {
         w.kinds = { Kind::converse}; w.versions = { current}; w.max_requests = deep ? 2 : 1; w.max_sends = 2; w.max_deaths = deep; w.max_batches = 1; w.limit = deep ? 11 : 9;
      });
      add( "old conversations", [=]
      {
         w.kinds = { Kind::converse, Kind::call}; w.versions = { Version::v1_1}; w.max_requests = 2; w.max_sends = 1; w.with_trid = deep; w.limit = deep ? 9 : 7;
      });
      add( "transactions", [=]
      {
         w.kinds = { Kind::call, Kind::prepare, Kind::commit, Kind::rollback}; w.without_trid = false; w.max_requests = 3; w.max_losses = 1; w.max_batches = deep; w.limit = deep ? 13 : 8;
      });
      add( "a transaction from two remotes", [=]
      {
         w.kinds = { Kind::call, Kind::prepare, Kind::commit, Kind::rollback}; w.versions = { current, current}; w.without_trid = false; w.max_requests = 4; w.max_losses = 1; w.prompt = true; w.max_errors = deep; w.max_absent = 0; w.limit = deep ? 11 : 7;
      });
      add( "a transaction that is new from two remotes", [=]
      {
         w.kinds = { Kind::call, Kind::prepare}; w.versions = { current, current}; w.without_trid = false; w.max_requests = 3; w.max_losses = 1; w.prompt = w.slow_branch = true; w.max_errors = 0; w.max_absent = 0; w.limit = deep ? 11 : 8;
      });
      add( "two at once", [=]
      {
         w.kinds = { Kind::call, Kind::enqueue}; w.max_batches = 1; w.max_requests = 2; w.max_absent = 0; w.max_errors = 0; w.limit = deep ? 9 : 6;
      });
      add( "connected to it self", [=]
      {
         w.kinds = { Kind::call, Kind::converse, Kind::enqueue, Kind::prepare}; w.loopback = true; w.without_trid = false; w.max_requests = 2; w.limit = deep ? 10 : 7;
      });
      add( "discovery", [=]
      {
         w.kinds = { Kind::discover, Kind::call}; w.versions = { current, Version::v1_3}; w.forward = 0; w.max_requests = 2; w.with_trid = false; w.limit = deep ? 10 : 7;
      });
      add( "shutdown", [=]
      {
         w.kinds = { Kind::call, Kind::forget, Kind::enqueue, Kind::discover}; w.max_requests = 2; w.max_shutdowns = 1; w.max_losses = deep; w.with_trid = deep; w.max_batches = deep; w.limit = deep ? 11 : 8;
      });
      add( "shutdown in conversation", [=]
      {
         w.kinds = { Kind::converse}; w.max_requests = 1; w.max_shutdowns = 1; w.max_losses = 0; w.max_sends = 1; w.with_trid = false; w.limit = deep ? 12 : 9;
      });
      add( "shutdown in transaction", [=]
      {
         w.kinds = { Kind::enqueue, Kind::prepare, Kind::commit, Kind::rollback}; w.versions = { current}; w.without_trid = false; w.max_requests = 3; w.prompt = true; w.max_shutdowns = 1; w.max_losses = 0; w.max_absent = 0; w.limit = deep ? 12 : 9;
      });
      add( "shutdown with an old remote", [=]
      {
         w.kinds = { Kind::call}; w.versions = { Version::v1_0, current}; w.max_requests = 2; w.max_shutdowns = 1; w.max_losses = 0; w.with_trid = false; w.limit = deep ? 10 : 7;
      });
      add( "slow connections", [=]
      {
         w.kinds = { Kind::call, Kind::enqueue}; w.max_requests = 2; w.max_full = deep ? 3 : 2; w.max_losses = 1; w.with_trid = false; w.limit = deep ? 11 : 8;
      });
      add( "slow servers, connections come back", [=]
      {
         w.kinds = { Kind::call, Kind::enqueue}; w.max_requests = 2; w.max_slow = 1; w.max_deaths = 1; w.max_losses = 1; w.max_errors = 0; w.max_absent = 0; w.reconnect = true; w.with_trid = false; w.limit = deep ? 11 : 8;
      });
      return result;
   }

   void body()
   {
      auto list = scenarios();
      if( auto only = std::getenv( "VK_ONLY")) std::erase_if( list, [only]( auto& s){ return s.name.find( only) == std::string::npos;});
      std::vector< std::string> names;
      for( auto& s : list) names.push_back( s.name);
      auto chosen = vk::choose( names, "scenario");
      w.scenario = names[ chosen];
      list[ chosen].setup();
      w.current.assign( w.versions.size(), -1);

      vkc::boot();
      setup();
      vk::kernel::idle = []( auto&, auto&){ step();};

      const char* argv[] = { "/nowhere/casual-gateway-inbound-group", nullptr};
      sut_main( 1, argv);
      if( ! w.shutdown) violation( "the program ended");
      closed();
      for( auto& r : w.requests)
         if( outstanding( r)) violation( "the program ended with requests outstanding", id( r));
      vk::finish( "shutdown");
   }
}

int main( int argc, char** argv)
{
   return vkc::main( argc, argv, {
      .rule = "from connected remote domains, every sequence of remote requests (calls, queue operations, conversations, discovery, transaction requests), lookup, branch and callee answers in every order, errors, connection losses (at rest, at the next write), full and partial writes, slow and dying callees, reconnect and shutdown, also two at once, up to the stated depth is applied to the real casual-gateway-inbound-group; states are merged when the gateway's state, the virtual kernel and the reference model agree",
      .assumptions = { "datagram delivery in order between processes, one message handled at a time (as in casual)", "the logical connect (a separate program) is represented by its result", "a transaction is done only when no request of it is outstanding" },
      }, []( const std::string&){ body();});
}
