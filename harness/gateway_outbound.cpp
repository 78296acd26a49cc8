//! the real casual-gateway-outbound-group on the virtual kernel: local processes ask, remote domains answer (or not)
#include "gateway.h"

#include "common/message/dispatch/handle.h"
#include "gateway/group/outbound/handle.h"
#include "gateway/group/outbound/state.h"

#include <regex>

namespace out = casual::gateway::group::outbound;

out::handle::external_handler wrapped( out::State&) asm( "__wrap__ZN6casual7gateway5group8outbound6handle8externalERNS2_5StateE");
out::handle::external_handler native( out::State&) asm( "__real__ZN6casual7gateway5group8outbound6handle8externalERNS2_5StateE");
extern "C" int sut_main( int, const char**);

namespace
{
   using namespace vkg;
   out::State* sut_state{};
}

out::handle::external_handler wrapped( out::State& state)
{
   sut_state = &state;
   return native( state);
}

namespace
{
   enum class Kind { call, forget, enqueue, dequeue, converse, discover, prepare, commit, rollback};

   std::string name( Kind kind)
   {
      static const char* names[] = { "call", "call without reply", "enqueue", "dequeue", "conversation", "discovery", "prepare", "commit", "rollback"};
      return names[ int( kind)];
   }

   struct Request
   {
      Kind kind{};
      int number{};
      int connection{};            //!< index, connections
      int caller = -1;
      cc::strong::correlation::id correlation;
      cc::transaction::ID trid;
      bool delivered{};            //!< the remote has it
      bool replied{};              //!< the remote has answered
      bool error{};                //!< ... with an error
      bool no_entry{};
      bool connected{};            //!< conversation: connect has been answered
      bool ended{};                //!< conversation
      bool disconnected{};
      int answers{};
      int local_sends{}, remote_sends{}, local_received{}, remote_received{};
      bool told{};                 //!< conversation: the end has been told to the caller
      bool loop{};                 //!< same correlation as another
      bool during_shutdown{};
      std::string text() const
      {
         std::ostringstream out;
         out << name( kind)[ 0] << int( kind) << connection << caller << bool( trid) << delivered << replied << error << no_entry << connected << ended << disconnected << answers << local_sends << remote_sends << local_received << remote_received << told << loop << during_shutdown << '|';
         return out.str();
      }
   };

   struct World
   {
      std::string property, scenario;
      // bounds
      std::vector< Kind> kinds;
      int max_requests = 2, max_losses = 1, max_deaths = 0, max_errors = 1, max_full = 0, max_batches = 0, max_sends = 0, max_shutdowns = 0, max_disconnects = 0, max_loops = 0, max_adverts = 0;
      bool with_trid = true, without_trid = true, reconnect = false;
      std::vector< Version> versions{ Version::current};
      int callers = 2;
      int limit = 8;
      // state
      std::vector< std::unique_ptr< Remote>> connections;    //!< a new one for each connect
      std::vector< int> current;                    //!< address -> connection, or -1
      std::vector< bool> listening;
      std::vector< Request> requests;
      std::vector< vkc::Peer*> peers;
      vkc::Peer* tm{};
      vkc::Peer* discovery{};
      std::set< std::pair< std::string, std::string>> involved;   //!< gtrid, connection
      std::set< std::string> destroyed, reset, queue_reset, instances, unadvertised, adverted;
      std::set< std::string> finished;              //!< gtrids that are done
      int losses{}, deaths{}, errors{}, fulls{}, batches{}, shutdowns{}, disconnects{}, loops{}, adverts{}, held{};
      bool shutdown{}, hold{}, started{};
      std::set< int> exited, lost_seen;
      int depth{};
      std::vector< int> spawned;                    //!< connections that are being connected
   };
   World& w = *new World;

   [[noreturn]] void violation( const std::string& kind, const std::string& text = "") { vk::violation( "gateway outbound: " + kind, "[" + w.scenario + "] " + text);}

   std::string global( const cc::transaction::ID& trid)
   {
      auto range = cc::transaction::id::range::global( trid);
      return { reinterpret_cast< const char*>( range.data()), std::size_t( range.size())};
   }

   Remote& remote( int connection) { return *w.connections[ connection];}
   bool lost( const Request& r) { return ! remote( r.connection).open;}
   bool compatible_call( Version v) { return casual::gateway::message::protocol::compatible< msg::service::call::callee::Request>( v);}
   bool compatible_queue( Version v) { return casual::gateway::message::protocol::compatible< qg::enqueue::Reply>( v);}
   bool compatible_discovery( Version v) { return casual::gateway::message::protocol::compatible< disc::Reply>( v);}

   Request& find( const cc::strong::correlation::id& correlation, const std::string& where)
   {
      for( auto& r : w.requests) if( r.correlation == correlation && ! r.loop) return r;
      violation( "unknown correlation", where);
   }

   // ------------------------------------------------------------------ answers to the local processes

   void answered( Request& r, bool failed, const std::string& content, bool right = true)
   {
      vk::evaluated();
      auto id = name( r.kind) + " " + std::to_string( r.number);
      if( r.kind == Kind::forget) violation( "a reply to a call without reply");
      if( ++r.answers > 1) violation( "answered more than once", id);
      if( r.replied && ( ! lost( r) || content == "reply " + std::to_string( r.number)))
      {
         if( ! right || content != "reply " + std::to_string( r.number)) violation( "the reply differs from what the remote gave", id + ": " + content);
         if( failed != r.error) violation( "the outcome differs from what the remote gave", id);
      }
      else
      {
         if( ! lost( r)) violation( "answered before the remote has", id);
         if( ! failed) violation( "a request on a lost connection seems to have worked", id);
      }
      if( r.delivered && r.trid && ( r.kind == Kind::call || r.kind == Kind::enqueue || r.kind == Kind::dequeue || r.kind == Kind::converse))
         if( ! w.involved.contains( { global( r.trid), vkc::text( remote( r.connection).handle.ipc)}) && ! w.destroyed.contains( vkc::text( remote( r.connection).handle.ipc)))
            violation( "answered before the transaction manager knows", id);
   }

   Request& local( const cc::strong::correlation::id& correlation, int caller, Kind kind, const std::string& what)
   {
      for( auto& r : w.requests)
         if( r.correlation == correlation && r.caller == caller)
         {
            if( r.kind != kind && ! ( kind == Kind::call && r.kind == Kind::forget)) violation( "a reply of another kind", what);
            return r;
         }
      violation( "a reply to a process that did not ask", what);
   }

   void listen( int i)
   {
      auto& peer = *w.peers[ i];
      peer.on< msg::service::call::Reply>( [i]( auto& m)
      {
         auto& r = local( m.correlation, i, Kind::call, "call");
         if( r.loop)
         {
            if( ++r.answers > 1) violation( "answered more than once", "loop");
            if( m.code.result == cc::code::xatmi::ok) violation( "a call that loops seems to have worked");
            return;
         }
         bool right = ! r.replied || r.error || m.code.user == r.number;
         answered( r, m.code.result != cc::code::xatmi::ok, text( m.buffer), right);
         if( r.no_entry && r.replied && m.code.result != cc::code::xatmi::no_entry && ! lost( r)) violation( "no entry is told as another error");
      });
      peer.on< qg::enqueue::Reply>( [i]( auto& m)
      {
         auto& r = local( m.correlation, i, Kind::enqueue, "enqueue");
         auto failed = m.code != cc::code::queue::ok || ! m.id;
         if( ! m.id && m.code == cc::code::queue::ok) violation( "an enqueue without result is told to be ok");
         answered( r, m.code != cc::code::queue::ok, m.id == vkc::uuid( 0x71, r.number) ? "reply " + std::to_string( r.number) : failed && r.error ? "reply " + std::to_string( r.number) : "");
      });
      peer.on< qg::dequeue::Reply>( [i]( auto& m)
      {
         auto& r = local( m.correlation, i, Kind::dequeue, "dequeue");
         auto content = m.message ? std::string( reinterpret_cast< const char*>( m.message->payload.data.data()), m.message->payload.data.size()) : r.error && r.replied ? "reply " + std::to_string( r.number) : "";
         if( m.message && m.code != cc::code::queue::ok) violation( "a message with an error code");
         if( ! m.message && m.code == cc::code::queue::ok) violation( "a dequeue without a message is told to be ok");
         answered( r, ! m.message, content);
      });
      peer.on< conv::connect::Reply>( [i]( auto& m)
      {
         auto& r = local( m.correlation, i, Kind::converse, "connect");
         vk::evaluated();
         auto failed = m.code.result != cc::code::xatmi::ok && m.code.result != cc::code::xatmi::absent;
         answered( r, failed, r.replied && failed == r.error ? "reply " + std::to_string( r.number) : "");
         if( failed) r.told = true;
      });
      peer.on< conv::callee::Send>( [i]( auto& m)
      {
         auto& r = local( m.correlation, i, Kind::converse, "send");
         vk::evaluated();
         if( r.disconnected) return; // it has left
         if( r.told) violation( "more is told after the end of a conversation");
         if( m.duplex == conv::duplex::Type::terminated && text( m.buffer) != "send " + std::to_string( r.local_received))
         {
            if( ! lost( r)) violation( "a conversation is told to end though it has not");
            if( m.code.result == cc::code::xatmi::ok || m.code.result == cc::code::xatmi::absent) violation( "a lost conversation seems to have worked");
            r.told = true;
            return;
         }
         if( r.answers == 0) violation( "something is sent before the conversation is connected");
         if( text( m.buffer) != "send " + std::to_string( r.local_received) || r.local_received >= r.remote_sends) violation( "conversation content differs", text( m.buffer));
         ++r.local_received;
         if( ( m.duplex == conv::duplex::Type::terminated) != ( r.ended && r.local_received == r.remote_sends)) violation( "the end of a conversation is told wrong");
         if( m.duplex == conv::duplex::Type::terminated) r.told = true;
      });
   }

   // ------------------------------------------------------------------ what arrives at the remote

   void arrived( Request& r, int connection, const std::string& content = "")
   {
      vk::evaluated();
      auto id = name( r.kind) + " " + std::to_string( r.number);
      if( r.connection != connection) violation( "sent on another connection", id);
      if( r.delivered) violation( "sent more than once", id);
      if( ! content.empty() && content != "request " + std::to_string( r.number)) violation( "the request is altered", id + ": " + content);
      r.delivered = true;
   }

   template< typename C>
   void check_trid( const Request& r, const C& trid)
   {
      if( trid != r.trid) violation( "another transaction is sent", name( r.kind));
   }

   std::string service( int number) { return "service" + std::to_string( number);}
   constexpr auto remaining = std::chrono::seconds{ 42};

   void serve( int connection)
   {
      auto& c = remote( connection);
      c.on< msg::service::call::callee::Request>( [connection, &c]( auto& m)
      {
         if( ! compatible_call( c.version)) violation( "a message that this version does not have", "call");
         auto& r = find( m.correlation, "call at remote");
         arrived( r, connection, text( m.buffer));
         check_trid( r, m.trid);
         if( m.service.name != service( r.number) || m.parent.service != "parent" || m.deadline.remaining != remaining) violation( "the request is altered", "call");
         if( ( r.kind == Kind::forget) != casual::common::flag::contains( m.flags, decltype( m.flags)::no_reply)) violation( "flags are altered");
      });
      c.on< msg::service::call::v1_2::callee::Request>( [connection, &c]( auto& m)
      {
         if( compatible_call( c.version)) violation( "an old message on a new connection", "call");
         auto& r = find( m.correlation, "call at remote");
         arrived( r, connection, text( m.buffer));
         check_trid( r, m.trid);
         if( m.service.name != service( r.number) || m.parent != "parent" || m.service.timeout.duration != remaining) violation( "the request is altered", "call v1.2");
         if( ( r.kind == Kind::forget) != casual::common::flag::contains( m.flags, decltype( m.flags)::no_reply)) violation( "flags are altered");
      });
      c.on< conv::connect::callee::Request>( [connection, &c]( auto& m)
      {
         if( ! compatible_call( c.version)) violation( "a message that this version does not have", "connect");
         auto& r = find( m.correlation, "connect at remote");
         arrived( r, connection, text( m.buffer));
         check_trid( r, m.trid);
         if( m.service.name != service( r.number) || m.duplex != conv::duplex::Type::send) violation( "the request is altered", "connect");
      });
      c.on< conv::connect::v1_2::callee::Request>( [connection, &c]( auto& m)
      {
         if( compatible_call( c.version)) violation( "an old message on a new connection", "connect");
         auto& r = find( m.correlation, "connect at remote");
         arrived( r, connection, text( m.buffer));
         check_trid( r, m.trid);
         if( m.service.name != service( r.number) || m.duplex != conv::duplex::Type::send) violation( "the request is altered", "connect v1.2");
      });
      c.on< conv::callee::Send>( [connection]( auto& m)
      {
         auto& r = find( m.correlation, "send at remote");
         vk::evaluated();
         if( r.connection != connection) violation( "sent on another connection", "conversation");
         if( text( m.buffer) != "send " + std::to_string( r.remote_received) || r.remote_received >= r.local_sends) violation( "conversation content differs", text( m.buffer));
         ++r.remote_received;
      });
      c.on< conv::Disconnect>( [connection]( auto& m)
      {
         auto& r = find( m.correlation, "disconnect at remote");
         if( r.connection != connection || ! r.disconnected) violation( "a disconnect that no one asked for");
         r.ended = true;
      });
      c.on< qg::enqueue::Request>( [connection]( auto& m)
      {
         auto& r = find( m.correlation, "enqueue at remote");
         arrived( r, connection, std::string( reinterpret_cast< const char*>( m.message.payload.data.data()), m.message.payload.data.size()));
         check_trid( r, m.trid);
      });
      c.on< qg::dequeue::Request>( [connection]( auto& m)
      {
         auto& r = find( m.correlation, "dequeue at remote");
         arrived( r, connection);
         check_trid( r, m.trid);
         if( m.name != service( r.number)) violation( "the request is altered", "dequeue");
      });
      c.on< disc::Request>( [connection]( auto& m)
      {
         auto& r = find( m.correlation, "discovery at remote");
         arrived( r, connection);
         if( m.content.services != std::vector< std::string>{ service( r.number)}) violation( "the request is altered", "discovery");
      });
      auto resource = [connection]( Kind kind)
      {
         return [connection, kind]( auto& m)
         {
            auto& r = find( m.correlation, "resource request at remote");
            if( r.kind != kind) violation( "another request", name( kind));
            arrived( r, connection);
            check_trid( r, m.trid);
         };
      };
      c.on< tr::prepare::Request>( resource( Kind::prepare));
      c.on< tr::commit::Request>( resource( Kind::commit));
      c.on< tr::rollback::Request>( resource( Kind::rollback));
      c.on< casual::gateway::message::domain::disconnect::Reply>( []( auto&){});
   }

   // ------------------------------------------------------------------ connections

   int connection( const Remote& c)
   {
      for( int i = 0; i < int( w.connections.size()); ++i) if( w.connections[ i].get() == &c) return i;
      return -1;
   }

   int address( int connection)
   {
      return remote( connection).name.back() - '0';
   }

   void connector_done( int connection)
   {
      casual::gateway::message::domain::Connected message;
      message.connector = cc::strong::process::id{ 7000 + connection};
      message.domain = cc::domain::Identity{ cc::strong::domain::id{ vkc::uuid( 0x41, address( connection))}, "D" + std::to_string( address( connection))};
      message.version = remote( connection).version;
      vkc::to_self( message);
   }

   bool told( const Request& r) { return w.destroyed.contains( vkc::text( remote( r.connection).handle.ipc));}
   bool caller_alive( const Request& r) { return r.caller < 0 || w.peers[ r.caller]->alive;}

   bool outstanding( const Request& r)
   {
      if( r.loop || r.kind == Kind::forget) return false;
      if( lost( r)) return false;
      if( r.kind == Kind::converse)
      {
         if( r.disconnected) return false;
         return ! ( r.answers && ( r.error || r.told)) && ! ( ! caller_alive( r) && r.ended);
      }
      return r.answers == 0 && ! ( r.replied && ! caller_alive( r));
   }

   //! connections that the program has closed
   void closed( int connecting = -1)
   {
      for( int c = 0; c < int( w.connections.size()); ++c)
      {
         auto& x = remote( c);
         if( ! x.open) continue;
         if( ! x.stream() || x.stream()->closed || x.fd == connecting)
         {
            if( ! w.shutdown && ! w.disconnects) violation( "a connection is closed for no reason", x.name);
            for( auto& r : w.requests) if( r.connection == c && outstanding( r)) violation( "a connection is closed with requests outstanding", x.name + " " + name( r.kind));
            if( w.finished.empty())
               for( auto& [ gtrid, ipc] : w.involved) if( ipc == vkc::text( x.handle.ipc)) violation( "a connection is closed though its transaction is not decided", x.name);
            x.open = false;
            if( w.current[ address( c)] == c) w.current[ address( c)] = -1;
         }
      }
   }

   void setup()
   {
      vk::kernel::on_connect = []( vk::kernel::Stream& stream)
      {
         closed( stream.fd);
         // configured order is the order of attempts
         int a = -1;
         for( int i = 0; i < int( w.current.size()); ++i) if( w.current[ i] == -1) { a = i; break;}
         if( a == -1) vk::broken( "unexpected connect fd " + std::to_string( stream.fd) + [&]{ std::string r; for( auto& c : w.connections) r += " " + c->text() + std::to_string( c->stream() ? c->stream()->closed : 9); return r;}());
         if( ! w.listening[ a]) return ECONNREFUSED;
         auto c = std::make_unique< Remote>();
         c->name = "D" + std::to_string( a);
         c->version = w.versions[ a];
         c->attach( stream);
         w.connections.push_back( std::move( c));
         int id = w.connections.size() - 1;
         w.current[ a] = id;
         serve( id);
         w.spawned.push_back( id);
         return 0;
      };
      vk::kernel::on_spawn = []( auto&, auto&, auto&)
      {
         if( w.spawned.empty()) vk::broken( "unexpected spawn");
         auto id = w.spawned.front();
         w.spawned.erase( w.spawned.begin());
         connector_done( id);
         return 7000 + id;
      };
      vk::kernel::on_wait = []( pid_t, int*, int) -> pid_t { return 0;};

      auto& service_manager = vkc::peer( "service-manager", 0x11, 1);
      vkc::domain().singleton( cc::communication::instance::identity::service::manager, service_manager.handle);
      service_manager.on< msg::event::service::Calls>( []( auto&){});
      service_manager.on< msg::service::Advertise>( []( auto&)
      {
         violation( "the service manager is told about a sequential service");
      });
      service_manager.on< msg::service::concurrent::Advertise>( []( auto& m)
      {
         auto ipc = vkc::text( m.process.ipc);
         if( m.directive == decltype( m.directive)::reset) w.reset.insert( ipc);
         for( auto& name : m.services.remove) w.unadvertised.insert( ipc + name);
         for( auto& service : m.services.add)
         {
            if( service.property.hops != 1) violation( "hops are wrong");
            w.adverted.insert( ipc + service.name);
         }
      });

      auto& queue = vkc::peer( "queue-manager", 0x12, 1);
      vkc::domain().singleton( cc::communication::instance::identity::queue::manager, queue.handle);
      queue.on< casual::queue::ipc::message::Advertise>( []( auto& m)
      {
         auto ipc = vkc::text( m.process.ipc);
         if( m.directive == decltype( m.directive)::reset) w.queue_reset.insert( ipc);
         for( auto& queue : m.queues.add) w.adverted.insert( ipc + queue.name);
      });

      w.tm = &vkc::peer( "transaction-manager", 0x13, 1);
      vkc::domain().singleton( cc::communication::instance::identity::transaction::manager, w.tm->handle);
      w.tm->on< tr::external::Instance>( []( auto& m)
      {
         for( auto& c : w.connections) if( c->open && c->name == m.description && ! c->handle.ipc) c->handle = m.process;
         w.instances.insert( vkc::text( m.process.ipc));
      });
      w.tm->on< tr::external::Involved>( []( auto& m)
      {
         vk::evaluated();
         for( auto& r : w.requests)
            if( r.trid && global( r.trid) == global( m.trid) && remote( r.connection).handle.ipc == m.process.ipc)
            {
               w.involved.insert( { global( m.trid), vkc::text( m.process.ipc)});
               return;
            }
         violation( "the transaction manager is told about a participant that has no part");
      });
      auto decision = []( Kind kind)
      {
         return [kind]( auto& m)
         {
            auto& r = local( m.correlation, -1, kind, name( kind));
            answered( r, m.state != cc::code::xa::ok, "reply " + std::to_string( r.number));
            check_trid( r, m.trid);
         };
      };
      w.tm->on< tr::prepare::Reply>( decision( Kind::prepare));
      w.tm->on< tr::commit::Reply>( decision( Kind::commit));
      w.tm->on< tr::rollback::Reply>( decision( Kind::rollback));

      w.discovery = &vkc::peer( "discovery", 0x14, 1);
      vkc::domain().singleton( casual::domain::discovery::instance::identity, w.discovery->handle);
      w.discovery->on< disc::api::provider::registration::Request>( []( auto& m)
      {
         vkc::push( m.process.ipc, cc::message::reverse::type( m));
      });
      w.discovery->on< disc::topology::direct::Update>( []( auto&){});
      w.discovery->on< disc::topology::implicit::Update>( []( auto&){});
      w.discovery->on< disc::Reply>( []( auto& m)
      {
         auto& r = local( m.correlation, -2, Kind::discover, "discovery");
         vk::evaluated();
         if( r.during_shutdown && ! r.delivered)
         {
            if( ++r.answers > 1) violation( "answered more than once", "discovery");
            if( m.content) violation( "discovery answered with something");
            return;
         }
         if( lost( r) && m.content.services.empty())
         {
            if( ++r.answers > 1) violation( "answered more than once", "discovery");
            return;
         }
         std::string content;
         if( m.content.services.size() == 1 && m.content.services[ 0].name == service( r.number) && m.content.queues.size() == 1 && m.content.queues[ 0].name == "queue" + std::to_string( r.number) && m.content.queues[ 0].retry.count == 3)
            content = "reply " + std::to_string( r.number);
         answered( r, false, content);
         auto ipc = vkc::text( remote( r.connection).handle.ipc);
         if( ! w.adverted.contains( ipc + service( r.number)) || ! w.adverted.contains( ipc + "queue" + std::to_string( r.number)))
            violation( "discovery is answered before what it found can be used");
      });

      auto& manager = vkc::peer( "gateway-manager", 0x15, 1);
      vkc::domain().singleton( cc::communication::instance::identity::gateway::manager, manager.handle);
      manager.on< casual::gateway::message::outbound::Connect>( []( auto& m)
      {
         casual::gateway::message::outbound::configuration::update::Request request{ vkc::peers().at( "gateway-manager")->handle};
         request.correlation = cc::strong::correlation::id{ vkc::uuid( 0x15, 7)};
         request.model.alias = "out";
         for( int i = 0; i < int( w.current.size()); ++i)
         {
            auto& connection = request.model.connections.emplace_back();
            connection.address = "127.0.0.1:770" + std::to_string( i);
         }
         vkc::push( m.process.ipc, request);
      });
      manager.on< casual::gateway::message::outbound::configuration::update::Reply>( []( auto&){});

      vkc::domain().peer->on< msg::event::ipc::Destroyed>( []( auto& m){ w.destroyed.insert( vkc::text( m.process.ipc));});

      for( int i = 0; i < w.callers; ++i)
      {
         w.peers.push_back( &vkc::peer( "caller" + std::to_string( i), 0x16, i));
         listen( i);
      }
   }

   // ------------------------------------------------------------------ actions

   void request( Kind kind, int connection, int caller, bool with_trid)
   {
      Request r;
      r.kind = kind;
      r.number = w.requests.size();
      r.connection = connection;
      r.caller = caller;
      r.correlation = cc::strong::correlation::id{ vkc::uuid( 0x31, r.number)};
      r.during_shutdown = w.shutdown;
      auto& c = remote( connection);
      auto owner = caller >= 0 ? w.peers[ caller]->handle : w.tm->handle;
      if( with_trid) r.trid = cc::transaction::ID{ vkc::uuid( 0x51, 0), vkc::uuid( 0x52, 0), w.peers[ 0]->handle};
      w.requests.push_back( r);

      auto common = [&]( auto& m)
      {
         m.correlation = r.correlation;
         if constexpr( requires{ m.trid;}) m.trid = r.trid;
      };
      auto content = "request " + std::to_string( r.number);
      switch( kind)
      {
         case Kind::call: case Kind::forget:
         {
            msg::service::call::callee::Request m{ owner};
            common( m);
            m.service.name = service( r.number);
            m.parent.service = "parent";
            m.deadline.remaining = remaining;
            m.buffer = payload( content);
            if( kind == Kind::forget) m.flags = decltype( m.flags)::no_reply;
            vkc::push( c.handle.ipc, m);
            break;
         }
         case Kind::converse:
         {
            conv::connect::callee::Request m{ owner};
            common( m);
            m.service.name = service( r.number);
            m.duplex = conv::duplex::Type::send;
            m.buffer = payload( content);
            vkc::push( c.handle.ipc, m);
            break;
         }
         case Kind::enqueue:
         {
            qg::enqueue::Request m{ owner};
            common( m);
            m.name = service( r.number);
            m.message.payload.type = ".binary/";
            for( auto x : content) m.message.payload.data.push_back( std::byte( x));
            vkc::push( c.handle.ipc, m);
            break;
         }
         case Kind::dequeue:
         {
            qg::dequeue::Request m{ owner};
            common( m);
            m.name = service( r.number);
            vkc::push( c.handle.ipc, m);
            break;
         }
         case Kind::discover:
         {
            disc::Request m{ w.discovery->handle};
            common( m);
            m.content.services = { service( r.number)};
            vkc::push( c.handle.ipc, m);
            break;
         }
         case Kind::prepare: { tr::prepare::Request m{ owner}; common( m); vkc::push( c.handle.ipc, m); break;}
         case Kind::commit: { tr::commit::Request m{ owner}; common( m); vkc::push( c.handle.ipc, m); break;}
         case Kind::rollback: { tr::rollback::Request m{ owner}; common( m); vkc::push( c.handle.ipc, m); break;}
      }
   }

   template< typename M>
   void reply( const Request& r, M m)
   {
      m.correlation = r.correlation;
      remote( r.connection).push( m);
   }

   void answer( Request& r, int error)
   {
      auto version = remote( r.connection).version;
      r.replied = true;
      r.error = error;
      r.no_entry = error == 2;
      auto content = "reply " + std::to_string( r.number);
      auto code = error == 0 ? cc::code::xatmi::ok : error == 1 ? cc::code::xatmi::service_fail : cc::code::xatmi::no_entry;
      switch( r.kind)
      {
         case Kind::call: case Kind::forget:
         {
            auto fill = [&]( auto m)
            {
               m.code.result = code;
               m.code.user = r.number;
               m.buffer = payload( content);
               reply( r, m);
            };
            if( compatible_call( version)) fill( msg::service::call::Reply{}); else fill( msg::service::call::v1_2::Reply{});
            break;
         }
         case Kind::converse:
         {
            conv::connect::Reply m;
            m.code.result = error ? code : cc::code::xatmi::absent;
            reply( r, m);
            r.connected = ! error;
            if( error) r.ended = true;
            break;
         }
         case Kind::enqueue:
         {
            if( compatible_queue( version))
            {
               qg::enqueue::Reply m;
               if( error) m.code = cc::code::queue::no_queue; else m.id = vkc::uuid( 0x71, r.number);
               reply( r, m);
            }
            else
            {
               qg::enqueue::v1_2::Reply m;
               if( ! error) m.id = vkc::uuid( 0x71, r.number);
               reply( r, m);
            }
            break;
         }
         case Kind::dequeue:
         {
            qg::dequeue::Message message;
            message.id = vkc::uuid( 0x71, r.number);
            for( auto x : content) message.payload.data.push_back( std::byte( x));
            if( compatible_queue( version))
            {
               qg::dequeue::Reply m;
               if( error) m.code = cc::code::queue::no_message; else m.message = message;
               reply( r, m);
            }
            else
            {
               qg::dequeue::v1_2::Reply m;
               if( ! error) m.message.push_back( message);
               reply( r, m);
            }
            break;
         }
         case Kind::discover:
         {
            auto fill = [&]( auto m, auto queue)
            {
               m.domain.name = "D";
               auto& s = m.content.services.emplace_back();
               s.name = service( r.number);
               queue.name = "queue" + std::to_string( r.number);
               if constexpr( requires{ queue.retries;}) queue.retries = 3; else queue.retry.count = 3;
               m.content.queues.push_back( queue);
               reply( r, m);
            };
            if( compatible_discovery( version)) fill( disc::Reply{}, disc::reply::content::Queue{}); else fill( disc::v1_3::Reply{}, disc::reply::content::v1_3::Queue{});
            break;
         }
         default:
         {
            auto fill = [&]( auto m)
            {
               m.trid = r.trid;
               m.state = error ? cc::code::xa::resource_fail : cc::code::xa::ok;
               reply( r, m);
            };
            if( r.kind == Kind::prepare) fill( tr::prepare::Reply{});
            else if( r.kind == Kind::commit) fill( tr::commit::Reply{});
            else fill( tr::rollback::Reply{});
         }
      }
   }

   bool can_answer( const Request& r) { return r.delivered && ! r.replied && ! lost( r) && r.kind != Kind::forget;}

   void lose( int connection, bool reset)
   {
      ++w.losses;
      w.current[ address( connection)] = -1;
      remote( connection).close( reset);
   }

   bool up( int connection)
   {
      auto& c = remote( connection);
      return c.open && c.handle.ipc;
   }

   using Action = std::pair< std::string, std::function< void()>>;

   std::vector< Action> actions()
   {
      std::vector< Action> result;
      auto add = [&]( std::string name, std::function< void()> f){ result.emplace_back( std::move( name), std::move( f));};

      bool first_trid = true;
      for( auto& r : w.requests) if( r.trid) first_trid = false;

      if( int( w.requests.size()) < w.max_requests)
         for( int c = 0; c < int( w.connections.size()); ++c)
         {
            if( ! up( c) || w.reset.contains( vkc::text( remote( c).handle.ipc))) continue;
            for( auto kind : w.kinds)
            {
               if( kind == Kind::discover) { add( "discovery at " + remote( c).name, [=]{ request( kind, c, -2, false);}); continue;}
               if( kind == Kind::prepare || kind == Kind::commit || kind == Kind::rollback)
               {
                  if( ! w.involved.contains( { global( cc::transaction::ID{ vkc::uuid( 0x51, 0), vkc::uuid( 0x52, 0), w.peers[ 0]->handle}), vkc::text( remote( c).handle.ipc)}) || ! w.finished.empty()) continue;
                  add( name( kind) + " at " + remote( c).name, [=]{ request( kind, c, -1, true);});
                  continue;
               }
               for( int p = 0; p < int( w.peers.size()); ++p)
               {
                  if( ! w.peers[ p]->alive) continue;
                  // callers are alike until one has been used
                  if( p == 1 && std::none_of( w.requests.begin(), w.requests.end(), []( auto& r){ return r.caller == 0;})) continue;
                  if( w.without_trid) add( name( kind) + " at " + remote( c).name + " by " + std::to_string( p), [=]{ request( kind, c, p, false);});
                  if( w.with_trid && w.finished.empty()) add( name( kind) + " in transaction at " + remote( c).name + " by " + std::to_string( p), [=]{ request( kind, c, p, true);});
               }
            }
         }
      ( void)first_trid;

      if( w.loops < w.max_loops)
         for( int i = 0; i < int( w.requests.size()); ++i)
         {
            auto& r = w.requests[ i];
            if( r.kind != Kind::call || r.loop || ! r.delivered || r.replied || lost( r)) continue;
            for( int c = 0; c < int( w.connections.size()); ++c)
               if( up( c))
                  add( "call " + std::to_string( i) + " comes back, for " + remote( c).name, [i, c]
                  {
                     ++w.loops;
                     auto copy = w.requests[ i];
                     copy.loop = true; copy.caller = 1 - copy.caller; copy.answers = 0; copy.connection = c;
                     msg::service::call::callee::Request m{ w.peers[ copy.caller]->handle};
                     m.correlation = copy.correlation;
                     m.service.name = service( copy.number);
                     m.trid = copy.trid;
                     w.requests.push_back( copy);
                     vkc::push( remote( c).handle.ipc, m);
                  });
         }

      for( int i = 0; i < int( w.requests.size()); ++i)
      {
         auto& r = w.requests[ i];
         if( r.loop) continue;
         if( can_answer( r))
         {
            add( "remote answers " + name( r.kind) + " " + std::to_string( i), [i]{ answer( w.requests[ i], 0);});
            if( w.errors < w.max_errors && r.kind != Kind::discover)
            {
               add( "remote refuses " + name( r.kind) + " " + std::to_string( i), [i]{ ++w.errors; answer( w.requests[ i], 1);});
               if( r.kind == Kind::call || r.kind == Kind::converse)
                  add( "remote has no " + name( r.kind) + " " + std::to_string( i), [i]{ ++w.errors; answer( w.requests[ i], 2);});
            }
         }
         if( r.kind == Kind::converse && ! lost( r))
         {
            if( r.connected && ! r.ended && r.remote_sends < w.max_sends)
            {
               for( bool last : { false, true})
                  add( std::string( "remote ") + ( last ? "ends" : "sends in") + " conversation " + std::to_string( i), [i, last]
                  {
                     auto& r = w.requests[ i];
                     conv::callee::Send m;
                     m.buffer = payload( "send " + std::to_string( r.remote_sends));
                     m.duplex = last ? conv::duplex::Type::terminated : conv::duplex::Type::receive;
                     m.code.result = last ? cc::code::xatmi::ok : cc::code::xatmi::absent;
                     ++r.remote_sends;
                     if( last) r.ended = true;
                     reply( r, m);
                  });
            }
            if( r.answers && ! r.error && ! r.told && ! r.disconnected && ( r.caller < 0 || w.peers[ r.caller]->alive))
            {
               if( r.local_sends < w.max_sends)
                  add( "caller sends in conversation " + std::to_string( i), [i]
                  {
                     auto& r = w.requests[ i];
                     conv::callee::Send m;
                     m.correlation = r.correlation;
                     m.buffer = payload( "send " + std::to_string( r.local_sends++));
                     m.duplex = conv::duplex::Type::receive;
                     vkc::push( remote( r.connection).handle.ipc, m);
                  });
               add( "caller disconnects conversation " + std::to_string( i), [i]
               {
                  auto& r = w.requests[ i];
                  r.disconnected = true;
                  conv::Disconnect m;
                  m.correlation = r.correlation;
                  vkc::push( remote( r.connection).handle.ipc, m);
               });
            }
         }
      }

      for( int c = 0; c < int( w.connections.size()); ++c)
      {
         auto& x = remote( c);
         if( ! up( c)) continue;
         if( w.losses < w.max_losses && ! x.breaks)
         {
            add( x.name + " closes", [c]{ lose( c, false);});
            add( x.name + " is reset", [c]{ lose( c, true);});
            add( x.name + " fails at the next write", [c]{ ++w.losses; w.current[ address( c)] = -1; remote( c).breaks = true;});
         }
         if( w.fulls < w.max_full && ! x.full && x.taken < 0)
         {
            add( x.name + " takes no more", [c]{ ++w.fulls; remote( c).full = true;});
            add( x.name + " takes part of a message", [c]{ ++w.fulls; remote( c).taken = 40;});
         }
         if( x.full)
         {
            add( x.name + " takes again", [c]{ remote( c).full = false;});
            if( w.max_full > 1)
               add( x.name + " takes a bit", [c]{ remote( c).full = false; remote( c).taken = 30;});
         }
         if( w.disconnects < w.max_disconnects && casual::gateway::message::protocol::compatible< casual::gateway::message::domain::disconnect::Request>( x.version))
            add( x.name + " asks to disconnect", [c]
            {
               ++w.disconnects;
               casual::gateway::message::domain::disconnect::Request m;
               m.correlation = cc::strong::correlation::id{ vkc::uuid( 0x36, c)};
               remote( c).push( m);
            });
      }

      if( w.deaths < w.max_deaths)
         for( int p = 0; p < int( w.peers.size()); ++p)
            if( w.peers[ p]->alive)
               for( auto& r : w.requests)
                  if( r.caller == p)
                  {
                     add( "caller" + std::to_string( p) + " dies", [p]{ ++w.deaths; w.peers[ p]->die();});
                     break;
                  }

      if( ! w.involved.empty() && w.finished.empty())
      {
         bool pending = false;
         for( auto& r : w.requests) if( r.trid && r.answers == 0 && ! lost( r)) pending = true;
         if( ! pending)
            add( "the transaction is done", []
            {
               msg::event::transaction::Disassociate event;
               event.gtrid = cc::transaction::global::ID{ cc::transaction::id::range::global( cc::transaction::ID{ vkc::uuid( 0x51, 0), vkc::uuid( 0x52, 0), w.peers[ 0]->handle})};
               w.finished.insert( "T");
               vkc::to_self( event);
            });
      }

      if( w.shutdowns < w.max_shutdowns)
         add( "shutdown", []{ ++w.shutdowns; w.shutdown = true; vkc::to_self( msg::shutdown::Request{ vkc::domain().peer->handle});});

      if( w.reconnect)
         for( int a = 0; a < int( w.current.size()); ++a)
            if( w.current[ a] == -1 && ! w.shutdown)
            {
               add( std::string( "D") + std::to_string( a) + ( w.listening[ a] ? " stops to listen" : " listens"), [a]{ w.listening[ a] = ! w.listening[ a];});
            }
      if( w.reconnect && vk::kernel::timer() != -1)
         add( "time passes", []{ vk::kernel::fire_timer();});

      if( w.batches < w.max_batches && w.held == 0 && ! result.empty())
         add( "two at once", []{ ++w.batches; w.hold = true;});
      return result;
   }

   void perform()
   {
      auto possible = actions();
      if( possible.empty()) vk::finish( "nothing left");
      std::vector< std::string> names;
      for( auto& a : possible) names.push_back( a.first);
      auto choice = vk::choose( names, std::to_string( w.depth + 1));
      ++w.depth;
      vk::transition();
      possible[ choice].second();
   }


   // ------------------------------------------------------------------ oracle at rest

   void quiescent()
   {
      closed();
      for( int c = 0; c < int( w.connections.size()); ++c)
      {
         auto& x = remote( c);
         if( x.open || ! x.handle.ipc) continue;
         vk::evaluated();
         auto ipc = vkc::text( x.handle.ipc);
         if( ! w.reset.contains( ipc)) violation( "the service manager is not told about a lost connection", x.name);
         if( ! w.queue_reset.contains( ipc)) violation( "the queue manager is not told about a lost connection", x.name);
         if( ! w.destroyed.contains( ipc)) violation( "no one is told about a lost connection", x.name);
      }
      for( auto& r : w.requests)
      {
         vk::evaluated();
         auto id = name( r.kind) + " " + std::to_string( r.number);
         if( r.loop)
         {
            if( r.answers == 0 && caller_alive( r)) violation( "a call that loops is never answered", id);
            continue;
         }
         auto& x = remote( r.connection);
         if( lost( r))
         {
            if( r.kind == Kind::forget || ! caller_alive( r)) continue;
            if( r.kind == Kind::prepare || r.kind == Kind::commit || r.kind == Kind::rollback || r.kind == Kind::discover)
            {
               if( r.answers == 0 && ! told( r)) violation( "never answered on a lost connection", id);
               continue;
            }
            if( r.answers == 0) violation( "never answered on a lost connection", id);
            if( r.kind == Kind::converse && ! r.disconnected && ! r.told) violation( "the loss of a conversation is never told", id);
            continue;
         }
         if( r.replied && r.answers == 0 && caller_alive( r)) violation( "the reply is never delivered", id);
         if( r.kind == Kind::converse && caller_alive( r) && ! r.disconnected && r.local_received < r.remote_sends) violation( "something sent in a conversation is never delivered", id);
         if( ! x.full && x.taken < 0 && ! x.breaks)
         {
            if( ! r.delivered && r.answers == 0) violation( "never sent to the remote", id);
            if( r.kind == Kind::converse && r.remote_received < r.local_sends) violation( "something sent in a conversation never reaches the remote", id);
            if( r.kind == Kind::converse && r.disconnected && ! r.ended) violation( "a disconnect never reaches the remote", id);
         }
         if( r.no_entry && r.answers && ! w.unadvertised.contains( vkc::text( x.handle.ipc) + service( r.number)) && ! w.reset.contains( vkc::text( x.handle.ipc)))
            violation( "a service that the remote does not have remains", id);
         if( r.delivered && r.trid && r.kind != Kind::forget && r.caller >= 0 && ! w.involved.contains( { global( r.trid), vkc::text( x.handle.ipc)}))
            violation( "the transaction manager does not know about a participant", id);
      }
      if( w.shutdown)
      {
         bool any = false;
         for( auto& r : w.requests) if( outstanding( r)) any = true;
         for( auto& [ gtrid, ipc] : w.involved)
            if( w.finished.empty() && ! w.destroyed.contains( ipc)) any = true;
         if( ! any && std::none_of( w.connections.begin(), w.connections.end(), []( auto& c){ return c->full || c->taken >= 0;})) violation( "the shutdown does not end");
      }
   }

   std::string fingerprint()
   {
      std::ostringstream out;
      out << w.scenario << '\n';
      for( auto& r : w.requests) out << r.text();
      for( auto& c : w.connections) out << c->text() << ';';
      for( auto c : w.current) out << c;
      for( auto l : w.listening) out << l;
      for( auto& i : w.involved) out << i.second;
      for( auto p : w.peers) out << p->alive;
      out << w.losses << w.deaths << w.errors << w.fulls << w.batches << w.shutdowns << w.disconnects << w.loops << w.shutdown << w.finished.size() << w.unadvertised.size() << w.adverted.size() << w.reset.size();
      std::string state;
      if( sut_state)
      {
         auto& s = *sut_state;
         auto part = [&]( auto&& get){ if constexpr( requires{ get( s);}) state += vkc::text( get( s));};
         part( []( auto& s) -> decltype( ( s.runlevel)) { return s.runlevel;});
         part( []( auto& s) -> decltype( ( s.connections)) { return s.connections;});
         part( []( auto& s) -> decltype( ( s.reply_destination)) { return s.reply_destination;});
         part( []( auto& s) -> decltype( ( s.tasks)) { return s.tasks;});
         part( []( auto& s) -> decltype( ( s.pending)) { return s.pending;});
         part( []( auto& s) -> decltype( ( s.disconnecting)) { return s.disconnecting;});
      }
      static const std::regex volatiles{ "0x[0-9a-f]+|created: [^,}]*|address: [0-9a-f]+"};
      out << std::regex_replace( state, volatiles, "");
      out << vk::kernel::state();
      return vk::canonical( out.str());
   }

   void step()
   {
      if( ! w.started)
      {
         for( auto& c : w.connections) if( ! c->handle.ipc) violation( "a connection is not told to the transaction manager", c->name);
         w.started = true;
      }
      quiescent();

      vk::visit_or_finish( fingerprint(), w.limit - w.depth);
      if( w.depth >= w.limit) vk::finish();

      perform();
      if( w.hold)
      {
         w.hold = false;
         ++w.held;
         perform();
         perform();
         --w.held;
         --w.depth;
      }
   }

   struct Scenario { std::string name; std::function< void()> setup;};

   std::vector< Scenario> scenarios( const std::string&)
   {
      std::vector< Scenario> result;
      bool deep = vk::thorough();
      auto add = [&]( std::string name, std::function< void()> f){ result.push_back( { name, f});};
      auto current = Version::current;

      add( "calls on two connections", [=]
      {
         w.kinds = { Kind::call}; w.versions = { current, Version::v1_2}; w.max_requests = deep ? 3 : 2; w.max_losses = 1; w.max_deaths = deep; w.max_batches = 1; w.limit = deep ? 8 : 5;
      });
      add( "three calls on one connection", [=]
      {
         w.kinds = { Kind::call, Kind::forget}; w.max_requests = 3; w.max_losses = 1; w.max_deaths = 1; w.max_loops = 1; w.with_trid = deep; w.max_batches = deep; w.limit = deep ? 9 : 6;
      });
      add( "queues", [=]
      {
         w.kinds = { Kind::enqueue, Kind::dequeue}; w.versions = { current, Version::v1_2}; w.max_requests = deep ? 3 : 2; w.max_losses = 1; w.max_batches = deep; w.without_trid = deep; w.callers = deep ? 2 : 1; w.limit = deep ? 8 : 6;
      });
      add( "conversations", [=]
      {
         w.kinds = { Kind::converse}; w.max_requests = 2; w.max_losses = 1; w.max_sends = 2; w.max_errors = 1; w.with_trid = deep; w.max_batches = 1; w.max_deaths = deep; w.limit = deep ? 9 : 7; w.callers = 1;
      });
      add( "an old conversation", [=]
      {
         w.kinds = { Kind::converse, Kind::call}; w.versions = { Version::v1_1}; w.max_requests = 2; w.max_losses = 1; w.max_sends = 1; w.max_errors = 1; w.callers = 1; w.limit = deep ? 8 : 6;
      });
      add( "transactions and discovery", [=]
      {
         w.kinds = { Kind::call, Kind::prepare, Kind::commit, Kind::rollback, Kind::discover}; w.versions = { Version::v1_3}; if( deep) w.versions.push_back( current); w.max_requests = deep ? 4 : 3; w.without_trid = false; w.callers = 1; w.max_losses = 1; w.max_batches = deep; w.max_errors = 1; w.limit = deep ? 9 : 6;
      });
      add( "shutdown", [=]
      {
         w.kinds = { Kind::call, Kind::forget, Kind::converse, Kind::enqueue, Kind::discover}; w.max_requests = 2; w.max_shutdowns = 1; w.max_losses = deep; w.max_sends = 1; w.callers = 1; w.max_batches = 1; w.with_trid = deep; w.limit = deep ? 8 : 6;
      });
      add( "the remote disconnects", [=]
      {
         w.kinds = { Kind::call, Kind::forget, Kind::converse, Kind::discover}; w.max_requests = 2; w.max_disconnects = 1; w.max_losses = deep; w.max_sends = 1; w.callers = 1; w.reconnect = true; w.max_batches = deep; w.limit = deep ? 8 : 6;
      });
      add( "a slow connection", [=]
      {
         w.kinds = { Kind::call, Kind::enqueue}; w.max_requests = deep ? 3 : 2; w.max_full = deep ? 3 : 2; w.max_losses = 1; w.callers = 1; w.max_batches = deep; w.with_trid = deep; w.limit = deep ? 10 : 7;
      });
      add( "connections come back", [=]
      {
         w.kinds = { Kind::call}; w.versions = { current, current}; w.max_requests = 2; w.max_losses = 2; w.reconnect = true; w.with_trid = false; w.callers = 1; w.limit = deep ? 10 : 8;
      });
      return result;
   }

   void body( const std::string& property)
   {
      w.property = property;
      auto list = scenarios( property);
      if( auto only = std::getenv( "VK_ONLY")) std::erase_if( list, [only]( auto& s){ return s.name.find( only) == std::string::npos;});
      std::vector< std::string> names;
      for( auto& s : list) names.push_back( s.name);
      auto chosen = vk::choose( names, "scenario");
      w.scenario = names[ chosen];
      list[ chosen].setup();
      w.current.assign( w.versions.size(), -1);
      w.listening.assign( w.versions.size(), true);

      vkc::boot();
      setup();
      vk::kernel::idle = []( auto&, auto&){ step();};

      const char* argv[] = { "/nowhere/casual-gateway-outbound-group", nullptr};
      sut_main( 1, argv);
      if( ! w.shutdown) violation( "the program ended");
      for( auto& r : w.requests)
         if( outstanding( r)) violation( "the program ended with requests outstanding", name( r.kind));
      for( auto& r : w.requests)
         if( ! r.loop && r.kind != Kind::forget && r.kind != Kind::converse && caller_alive( r) && r.answers != 1 && ! told( r)) violation( "the program ended with requests unanswered", name( r.kind));
      vk::finish( "shutdown");
   }
}

int main( int argc, char** argv)
{
   return vkc::main( argc, argv, {
      .rule = "from connected remote domains, every sequence of local requests (calls, queue operations, conversations, discovery, transaction requests), remote answers in every order, errors, connection losses (at rest, at the next write), full and partial writes, deaths of callers, remote disconnect, reconnect and shutdown, also two at once, up to the stated depth is applied to the real casual-gateway-outbound-group; states are merged when the gateway's state, the virtual kernel and the reference model agree",
      .assumptions = { "datagram delivery in order between processes, one message handled at a time (as in casual)", "the logical connect (a separate program) is represented by its result", "a transaction is done only when no request of it is outstanding" },
      }, []( const std::string& property){ body( property);});
}
