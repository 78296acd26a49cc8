//! S01 - S05: the real casual-service-manager, driven through every sequence of messages, deaths and
//! timer expiries within the bounds of a scenario. See DESIGN.md
#include "vkc.h"

#include "service/manager/state.h"
#include "service/manager/handle.h"
#include "service/forward/instance.h"
#include "domain/discovery/instance.h"
#include "domain/message/discovery.h"

#include "common/communication/instance.h"
#include "common/message/service.h"
#include "common/message/transaction.h"
#include "common/message/event.h"

#include <functional>
#include <optional>
#include <set>

using namespace casual;
namespace cc = casual::common;
namespace msg = casual::common::message;
namespace disc = casual::domain::message::discovery;

extern "C" int sut_main( int argc, const char** argv);

namespace { service::manager::State* sut_state = nullptr;}

service::manager::handle::dispatch_type real_create( service::manager::State&) asm( "__real__ZN6casual7service7manager6handle6createERNS1_5StateE");
service::manager::handle::dispatch_type wrap_create( service::manager::State& state) asm( "__wrap__ZN6casual7service7manager6handle6createERNS1_5StateE");
service::manager::handle::dispatch_type wrap_create( service::manager::State& state)
{
   sut_state = &state;
   return real_create( state);
}

namespace
{
   using Semantic = msg::service::lookup::request::context::Semantic;
   using Requester = msg::service::lookup::request::context::Requester;
   using Contract = cc::service::execution::timeout::contract::Type;
   constexpr std::int64_t ms = 1'000'000;

   enum class Status { waiting, granted, done, forwarded, absent, timeout, failed, withdrawn, lost};
   const char* name( Status s)
   {
      static const char* names[] = { "waiting", "granted", "done", "forwarded", "absent", "timeout", "failed", "withdrawn", "lost"};
      return names[ int( s)];
   }

   struct Lookup
   {
      std::string service;
      Semantic semantic{};
      Requester requester{};
      cc::Uuid correlation;
      vkc::Peer* caller{};
      Status status = Status::waiting;
      int server = -1;                          //!< granted a sequential instance
      int gateway = -1;
      std::optional< std::int64_t> deadline;    //!< due
      std::optional< std::int64_t> wanted;      //!< from the caller
      bool discovery{};                         //!< a question to the other domains is not answered yet
      bool queued{};                            //!< has been waiting after it was processed
      int gtrid = -1;
      bool discard_sent{};
      std::int64_t queue_number = 0;
   };

   struct Server
   {
      vkc::Peer* peer{};
      bool started{}, alive = true;             //!< alive until the exit is told
      std::set< std::string> offers;
      int holder = -1;                          //!< lookup
      bool reported{};                          //!< holder has been told about timeout
      bool draining{};
      bool doomed{};                            //!< timed out with a contract that kills
   };

   struct Gateway
   {
      vkc::Peer* peer{};
      bool started{}, alive = true;
      int order = 0;
      std::map< std::string, int> offers;       //!< hops
   };

   struct Shutdown
   {
      cc::Uuid correlation;
      std::vector< int> servers;
      std::set< int> listed;
      bool unknown{}, unknown_listed{};
   };

   struct ServiceInfo
   {
      std::int64_t timeout = 0;
      std::optional< Contract> contract;
   };

   struct World
   {
      std::string scenario;
      int depth = 0, limit = 0;
      std::vector< Lookup> lookups;
      std::vector< Server> servers;
      std::vector< Gateway> gateways;
      std::vector< Shutdown> shutdowns;
      std::map< std::string, ServiceInfo> services;
      std::map< int, std::set< int>> associated;     //!< gtrid -> gateways
      vkc::Peer* forward{}; vkc::Peer* discovery{}; vkc::Peer* tm{};
      cc::process::Handle unknown;
      std::set< int> assassinated;
      int exits = 0, advertises = 0, discards = 0, prepares = 0, fires = 0, deaths = 0, discoveries = 0;
      std::int64_t queue_counter = 0;

      // bounds
      int max_lookups = 3, max_exits = 1, max_advertises = 1, max_discards = 1, max_prepares = 0, max_fires = 0, max_deaths = 1;
      bool transactional_acks{}; std::set< int> rollbacks;
      bool external{}, no_reply{}, wait{}, transactions{}, unadvertise{}, caller_deadline{}, orders{};
      std::vector< std::string> names{ "A"};
   };
   World& w = *new World;

   std::string label( int lookup) { return "L" + std::to_string( lookup) + "(" + w.lookups[ lookup].service + ")";}
   std::string server_name( int s) { return "s" + std::to_string( s + 1);}

   cc::Uuid correlation_of( int n) { return vkc::uuid( 0x40, n);}

   bool offering( const Server& s, const std::string& service) { return s.started && s.alive && ! s.draining && s.offers.contains( service);}
   bool offering( const Gateway& g, const std::string& service) { return g.started && g.alive && g.offers.contains( service);}

   int lookup_by( const cc::Uuid& correlation)
   {
      for( int i = 0; i < int( w.lookups.size()); ++i) if( w.lookups[ i].correlation == correlation) return i;
      return -1;
   }

   [[noreturn]] void violation( const std::string& kind, const std::string& text = {});

   void answer( int index, const char* what)
   {
      auto& l = w.lookups[ index];
      vk::evaluated();
      if( l.status != Status::waiting)
         violation( "a lookup is answered more than once", label( index) + " " + name( l.status) + " gets " + what);
   }

   void grant_deadline( int index, std::optional< std::chrono::nanoseconds> remaining)
   {
      auto& l = w.lookups[ index];
      auto& info = w.services[ l.service];
      if( ! l.deadline || l.gateway >= 0)
      {
         l.deadline.reset();
         auto own = info.timeout > 0 && l.gateway < 0 ? std::optional{ vk::kernel::now() + info.timeout} : std::nullopt;
         if( own) l.deadline = *own;
         if( l.wanted && ( ! l.deadline || *l.wanted < *l.deadline)) l.deadline = l.wanted;
      }
      vk::evaluated();
      std::optional< std::int64_t> expected;
      if( l.deadline) expected = *l.deadline - vk::kernel::now();
      if( l.gateway >= 0) { l.deadline.reset(); return;}  // not kept by the service manager
      auto near = []( std::int64_t a, std::int64_t b){ return std::abs( a - b) <= 1000;};
      if( expected.has_value() != remaining.has_value() || ( expected && ! near( *expected, remaining->count())))
         violation( "wrong remaining time in the answer", label( index) + " expected " + ( expected ? std::to_string( *expected) : "none") + " got " + ( remaining ? std::to_string( remaining->count()) : "none"));
   }

   void granted( int index, const msg::service::lookup::Reply& reply)
   {
      auto& l = w.lookups[ index];
      answer( index, "an instance");

      if( reply.process == w.forward->handle)
      {
         if( l.semantic != Semantic::no_reply)
            violation( "a caller that wants a reply is sent to the forward", label( index));
         bool any = false;
         for( auto& s : w.servers)
         {
            any = any || offering( s, l.service);
         }
         if( ! any) violation( "granted an instance that does not offer the service", label( index) + " the forward");
         l.status = Status::forwarded;
         return;
      }

      for( int i = 0; i < int( w.servers.size()); ++i)
      {
         auto& s = w.servers[ i];
         if( ! s.peer || s.peer->handle.ipc != reply.process.ipc) continue;
         vk::evaluated( 4);
         if( ! s.alive || ! s.started) violation( "granted an instance that is gone", label( index) + " " + server_name( i));
         if( s.draining) violation( "granted an instance that is to be shut down", label( index) + " " + server_name( i));
         if( ! s.offers.contains( l.service)) violation( "granted an instance that does not offer the service", label( index) + " " + server_name( i));
         if( s.holder >= 0) violation( "granted an instance that serves another call", label( index) + " " + server_name( i) + " which serves " + label( s.holder));
         // order
         for( int other = 0; other < int( w.lookups.size()); ++other)
            if( other != index && w.lookups[ other].status == Status::waiting && w.lookups[ other].queued && w.lookups[ other].service == l.service
               && w.lookups[ other].queue_number < ( l.queued ? l.queue_number : INT64_MAX))
               violation( "a later caller is served before one that waits for the same service", label( index) + " before " + label( other));
         l.status = Status::granted;
         l.server = i;
         s.holder = index;
         s.reported = false;
         grant_deadline( index, reply.deadline.remaining);
         vk::cover( l.queued ? "granted after waiting" : "granted at once");
         return;
      }
      for( int i = 0; i < int( w.gateways.size()); ++i)
      {
         auto& g = w.gateways[ i];
         if( ! g.peer || g.peer->handle.ipc != reply.process.ipc) continue;
         vk::evaluated( 4);
         if( ! offering( g, l.service)) violation( "granted a connection that does not offer the service", label( index) + " g" + std::to_string( i + 1));
         if( l.requester == Requester::external) violation( "a call from another domain is sent to another domain", label( index));
         for( auto& s : w.servers) if( offering( s, l.service))
            violation( "a remote instance is preferred to a local", label( index));
         auto key = [ &l]( const Gateway& g){ return std::pair( g.order, g.offers.at( l.service));};
         for( auto& other : w.gateways) if( offering( other, l.service) && key( other) < key( g))
            violation( "not the best connection is chosen", label( index) + " g" + std::to_string( i + 1));
         if( l.gtrid >= 0)
         {
            for( auto a : w.associated[ l.gtrid])
               if( ! w.associated[ l.gtrid].contains( i) && offering( w.gateways[ a], l.service) && key( w.gateways[ a]) == key( g))
                  violation( "a transaction changes connection", label( index));
            w.associated[ l.gtrid].insert( i);
         }
         l.status = Status::done;
         l.gateway = i;
         grant_deadline( index, reply.deadline.remaining);
         vk::cover( "granted remote");
         return;
      }
      violation( "granted an unknown process", label( index) + " " + vkc::text( reply));
   }

   void on_reply( int index, const msg::service::lookup::Reply& reply)
   {
      auto& l = w.lookups[ index];
      vk::note( "   -> " + label( index) + ": " + std::string( description( reply.state)) + " " + vkc::text( reply.process.ipc));
      if( lookup_by( reply.correlation.value()) != index)
         violation( "an answer to another's lookup", label( index));
      using State = decltype( reply.state);
      switch( reply.state)
      {
         case State::idle: granted( index, reply); break;
         case State::absent:
         {
            answer( index, "absent");
            vk::evaluated();
            for( auto& s : w.servers) if( offering( s, l.service) && ! s.doomed) violation( "absent though an instance offers the service", label( index));
            if( l.requester == Requester::internal)
            {
               for( auto& g : w.gateways) if( offering( g, l.service)) violation( "absent though a connection offers the service", label( index));
               if( l.discovery) violation( "absent before the other domains have answered", label( index));
               if( l.semantic == Semantic::wait) violation( "absent though the caller waits", label( index));
            }
            l.status = Status::absent;
            vk::cover( "absent");
            break;
         }
         case State::timeout:
         {
            answer( index, "timeout");
            vk::evaluated();
            if( ! l.deadline) violation( "timeout without a deadline", label( index));
            if( vk::kernel::now() < *l.deadline) violation( "timeout too early", label( index));
            l.status = Status::timeout;
            vk::cover( "timed out while waiting");
            break;
         }
      }
   }

   void on_error( int index, const msg::service::call::Reply& reply)
   {
      auto& l = w.lookups[ index];
      vk::note( "   -> " + label( index) + ": error " + vkc::text( reply.code));
      vk::evaluated( 2);
      if( lookup_by( reply.correlation.value()) != index) violation( "an answer to another's call", label( index));
      if( l.status != Status::granted) violation( "a call gets an error though it is over", label( index) + " is " + name( l.status));
      if( reply.code.result == cc::code::xatmi::timeout)
      {
         if( ! l.deadline || vk::kernel::now() < *l.deadline) violation( "a call is reported as timed out too early", label( index));
         auto& s = w.servers[ l.server];
         s.reported = true;
         auto contract = w.services[ l.service].contract.value_or( Contract::linger);
         if( contract == Contract::kill || contract == Contract::abort) s.doomed = true;
         l.status = Status::timeout;
         vk::cover( "timed out in progress");
      }
      else
      {
         if( w.servers[ l.server].alive) violation( "a call gets an error though its server lives", label( index));
         l.status = Status::failed;
         vk::cover( "told that the server is lost");
      }
   }

   void on_discarded( int index, const msg::service::lookup::discard::Reply& reply)
   {
      auto& l = w.lookups[ index];
      vk::note( "   -> " + label( index) + ": discard " + std::to_string( int( reply.state)));
      vk::evaluated();
      if( ! l.discard_sent) violation( "a discard answer that nobody asked for", label( index));
      l.discard_sent = false;
      using State = decltype( reply.state);
      if( l.status == Status::waiting)
      {
         if( reply.state != State::discarded) violation( "a waiting lookup is withdrawn but the answer is not 'discarded'", label( index));
         l.status = Status::withdrawn;
      }
      else if( reply.state == State::discarded)
         violation( "answered as discarded though it has been answered", label( index));
   }

   // ------------------------------------------------------------ invariants when nothing is left to do

   std::string dump()
   {
      std::ostringstream out;
      out << "depth " << w.depth << " now " << vk::kernel::now() % 1'000'000'000'000 << " timer " << ( vk::kernel::timer() < 0 ? -1 : vk::kernel::timer() - vk::kernel::now()) << '\n';
      for( int i = 0; i < int( w.servers.size()); ++i)
      {
         auto& s = w.servers[ i];
         out << server_name( i) << " " << ( s.peer ? vkc::text( s.peer->handle.ipc) : "") << " started " << s.started << " alive " << s.alive << " holder " << s.holder << " reported " << s.reported << " draining " << s.draining << " doomed " << s.doomed << " offers";
         for( auto& o : s.offers) out << ' ' << o;
         out << '\n';
      }
      for( int i = 0; i < int( w.gateways.size()); ++i)
      {
         auto& g = w.gateways[ i];
         out << "g" << i + 1 << " " << ( g.peer ? vkc::text( g.peer->handle.ipc) : "") << " " << g.started << g.alive << " order " << g.order;
         for( auto& [ n, hops] : g.offers) out << ' ' << n << ':' << hops;
         out << '\n';
      }
      for( int i = 0; i < int( w.lookups.size()); ++i)
      {
         auto& l = w.lookups[ i];
         out << label( i) << " " << vkc::text( l.correlation) << " caller " << vkc::text( l.caller->handle.ipc) << " " << name( l.status) << " alive " << l.caller->alive << " server " << l.server << " deadline " << ( l.deadline ? *l.deadline - vk::kernel::now() : -1)
            << " discovery " << l.discovery << " queued " << l.queued << " semantic " << vkc::text( l.semantic) << " requester " << vkc::text( l.requester) << " gtrid " << l.gtrid << " discard " << l.discard_sent << '\n';
      }
      for( auto& s : w.shutdowns)
      {
         out << "shutdown " << vkc::text( s.correlation);
         for( auto i : s.servers) out << ' ' << server_name( i) << ( s.listed.contains( i) ? "!" : "");
         out << " u" << s.unknown << s.unknown_listed << '\n';
      }
      for( auto& [ gtrid, gateways] : w.associated) { out << "gtrid " << gtrid; for( auto g : gateways) out << ' ' << g; out << '\n';}
      return out.str();
   }

   [[noreturn]] void violation( const std::string& kind, const std::string& text)
   {
      vk::violation( kind, text + "\n" + dump());
   }

   bool idle( const Server& s) { return s.holder < 0;}

   void quiescent()
   {
      for( int i = 0; i < int( w.lookups.size()); ++i)
      {
         auto& l = w.lookups[ i];
         if( l.status != Status::waiting) continue;
         l.queued = true;
         if( l.queue_number == 0) l.queue_number = ++w.queue_counter;
         if( ! l.caller->alive) { l.status = Status::lost; continue;}
         vk::evaluated();
         if( l.discard_sent) violation( "a withdrawal is not answered", label( i));
         bool busy = false, doomed = false;
         for( int s = 0; s < int( w.servers.size()); ++s)
            if( offering( w.servers[ s], l.service))
            {
               if( w.servers[ s].doomed) { doomed = true; continue;}
               if( idle( w.servers[ s])) violation( "a caller waits though an instance that offers the service is idle", label( i) + " " + server_name( s));
               busy = true;
            }
         if( busy || doomed)
         {
            // the deadline of a caller that waits for a busy service
            if( ! l.deadline && l.semantic == Semantic::regular)
            {
               auto& info = w.services[ l.service];
               if( info.timeout > 0) l.deadline = vk::kernel::now() + info.timeout;
               if( l.wanted && ( ! l.deadline || *l.wanted < *l.deadline)) l.deadline = l.wanted;
            }
            continue;
         }
         if( l.requester == Requester::internal)
         {
            for( auto& g : w.gateways) if( offering( g, l.service)) violation( "a caller waits though a connection offers the service", label( i));
            if( l.discovery || l.semantic == Semantic::wait) continue;
         }
         violation( "a caller waits for nothing", label( i) + ": no instance offers the service, and nothing is asked for");
      }
      for( int i = 0; i < int( w.lookups.size()); ++i)
      {
         auto& l = w.lookups[ i];
         if( l.discard_sent && l.caller->alive) violation( "a withdrawal is not answered", label( i));
         if( l.status == Status::granted && l.server >= 0 && ! w.servers[ l.server].alive && l.caller->alive && l.semantic != Semantic::no_reply)
            violation( "the caller of a lost server is not told", label( i));
         if( ( l.status == Status::waiting || ( l.status == Status::granted && l.server >= 0)) && l.deadline && l.caller->alive && l.semantic != Semantic::no_reply)
         {
            vk::evaluated( 2);
            if( *l.deadline < vk::kernel::now()) violation( "a deadline has passed without the caller being told", label( i));
            if( vk::kernel::timer() < 0) violation( "a deadline is waited for, but no timer is set", label( i));
            if( vk::kernel::timer() > *l.deadline + 2000) violation( "the timer is set beyond the deadline", label( i) + " by " + std::to_string( vk::kernel::timer() - *l.deadline));
         }
      }
      if( ! w.rollbacks.empty()) violation( "the transaction of a call that timed out is not rolled back");
      for( auto& shutdown : w.shutdowns)
      {
         vk::evaluated();
         bool busy = false;
         for( auto s : shutdown.servers)
            if( w.servers[ s].alive && ! idle( w.servers[ s])) busy = true;
         if( busy) continue;
         for( auto s : shutdown.servers)
            if( w.servers[ s].alive && ! shutdown.listed.contains( s))
               violation( "a shutdown is not answered though the instances are idle or gone", server_name( s));
         if( shutdown.unknown && ! shutdown.unknown_listed)
            violation( "a shutdown of an unknown process is not answered");
      }
   }

   std::string strip( std::string text, const std::string& key)
   {
      for( auto at = text.find( key); at != std::string::npos; at = text.find( key, at))
      {
         auto open = at + key.size();
         int depth = 0;
         auto i = open;
         for( ; i < text.size(); ++i)
         {
            if( text[ i] == '[' || text[ i] == '{') ++depth;
            else if( text[ i] == ']' || text[ i] == '}') { if( --depth == 0) { ++i; break;}}
         }
         text.erase( at, i - at);
      }
      return text;
   }

   std::string fingerprint()
   {
      std::ostringstream out;
      out << w.scenario << '\n' << dump();
      out << "bounds " << w.exits << ' ' << w.advertises << ' ' << w.discards << ' ' << w.prepares << ' ' << w.fires << ' ' << w.deaths << ' ' << w.lookups.size() << '\n';
      if( sut_state)
      {
         // what there is, other members might be named otherwise some day
         auto insight = [&out]( auto& state)
         {
            auto part = [&out]( auto& value){ out << strip( vkc::text( value), "metrics: ") << '\n';};
            part( state);
            if constexpr( requires{ state.services;}) part( state.services);
            if constexpr( requires{ state.instances;}) part( state.instances);
            if constexpr( requires{ state.pending;}) part( state.pending);
            if constexpr( requires{ state.transaction;}) part( state.transaction);
            if constexpr( requires{ state.multiplex;}) part( state.multiplex);
            if constexpr( requires{ state.timeout_instances;}) part( state.timeout_instances);
            if constexpr( requires{ state.disabled;}) part( state.disabled);
         };
         insight( *sut_state);
      }
      else
         for( auto& l : w.lookups) out << vkc::text( l.correlation); // no insight: no pruning beyond the trace
      out << vk::kernel::state();
      auto text = out.str();
      // depth is part of remaining
      text = text.substr( text.find( "now "));
      return vk::canonical( w.scenario + text);
   }

   // ------------------------------------------------------------ actions

   using Actions = std::vector< std::pair< std::string, std::function< void()>>>;

   void push_lookup( const std::string& service, Semantic semantic, Requester requester, int gtrid, std::optional< std::int64_t> wanted, bool die)
   {
      vk::kernel::advance( 1000);
      int index = w.lookups.size();
      Lookup l;
      l.service = service;
      l.semantic = semantic;
      l.requester = requester;
      l.correlation = correlation_of( index);
      l.gtrid = gtrid;
      l.wanted = wanted;
      auto& caller = vkc::peer( "c" + std::to_string( index + 1), 0x30, index);
      caller.on< msg::service::lookup::Reply>( [index]( auto& m){ on_reply( index, m);});
      caller.on< msg::service::call::Reply>( [index]( auto& m){ on_error( index, m);});
      caller.on< msg::service::lookup::discard::Reply>( [index]( auto& m){ on_discarded( index, m);});
      l.caller = &caller;
      w.lookups.push_back( l);

      msg::service::lookup::Request request{ caller.handle};
      request.correlation = cc::strong::correlation::id{ l.correlation};
      request.requested = service;
      request.context.semantic = semantic;
      request.context.requester = requester;
      if( gtrid >= 0) request.gtrid = cc::transaction::global::ID( std::string( "G") + std::to_string( gtrid));
      if( wanted) request.deadline = platform::time::point::type{ std::chrono::duration_cast< platform::time::point::type::duration>( std::chrono::nanoseconds{ *wanted})};
      vkc::to_self( request);
      if( die) caller.die();
   }

   void advertise( int s, std::set< std::string> add, std::set< std::string> remove)
   {
      auto& server = w.servers[ s];
      msg::service::Advertise message{ server.peer->handle};
      message.alias = server_name( s);
      for( auto& n : add) { message.services.add.emplace_back().name = n; server.offers.insert( n);}
      for( auto& n : remove) { message.services.remove.push_back( n); server.offers.erase( n);}
      server.started = true;
      vkc::to_self( message);
   }

   void connection( int g, int order, std::map< std::string, int> add, std::set< std::string> remove = {})
   {
      auto& gateway = w.gateways[ g];
      msg::service::concurrent::Advertise message{ gateway.peer->handle};
      message.alias = "g" + std::to_string( g + 1);
      message.order = order;
      for( auto& [ n, hops] : add)
      {
         auto& service = message.services.add.emplace_back();
         service.name = n;
         service.property.hops = hops;
         gateway.offers[ n] = hops;
      }
      for( auto& n : remove) { message.services.remove.push_back( n); gateway.offers.erase( n);}
      gateway.order = order;
      gateway.started = true;
      vkc::to_self( message);
   }

   cc::transaction::ID trid_of( int lookup)
   {
      return cc::transaction::ID{ vkc::uuid( 0x60, lookup), vkc::uuid( 0x61, lookup), cc::process::Handle{ cc::strong::process::id{ 8000}, cc::strong::ipc::id{ vkc::uuid( 0x62, 1)}}};
   }

   void ack( int s, bool transaction = false)
   {
      auto& server = w.servers[ s];
      auto& l = w.lookups[ server.holder];
      msg::service::call::ACK message;
      message.correlation = cc::strong::correlation::id{ l.correlation};
      message.metric.process = server.peer->handle;
      message.metric.service = l.service;
      message.metric.correlation = message.correlation;
      if( transaction)
      {
         message.metric.trid = trid_of( server.holder);
         if( server.reported) w.rollbacks.insert( server.holder);
      }
      if( l.status == Status::granted) l.status = Status::done;
      server.holder = -1;
      server.reported = false;
      vkc::to_self( message);
   }

   void leave_server( int s)
   {
      auto& server = w.servers[ s];
      server.alive = false;
      server.peer->die();
      server.holder = -1;
      msg::event::process::Exit event;
      event.state.pid = server.peer->handle.pid;
      event.state.reason = decltype( event.state.reason)::core;
      vkc::to_self( event);
   }

   Actions actions()
   {
      Actions result;
      auto add = [&result]( std::string name, std::function< void()> f){ result.emplace_back( std::move( name), std::move( f));};

      // acks
      for( int s = 0; s < int( w.servers.size()); ++s)
         if( w.servers[ s].alive && w.servers[ s].holder >= 0)
         {
            add( server_name( s) + " acks " + label( w.servers[ s].holder), [s]{ ack( s);});
            if( w.transactional_acks) add( server_name( s) + " acks " + label( w.servers[ s].holder) + " in transaction", [s]{ ack( s, true);});
         }

      // lookups
      if( int( w.lookups.size()) < w.max_lookups)
      {
         for( auto& n : w.names)
         {
            auto name = n;
            auto lookup = [&]( std::string text, Semantic semantic, Requester requester, int gtrid = -1, std::optional< std::int64_t> wanted = {}, bool die = false)
            {
               add( "lookup " + name + text, [=]{ push_lookup( name, semantic, requester, gtrid, wanted, die);});
            };
            lookup( "", Semantic::regular, Requester::internal);
            if( w.max_deaths > w.deaths) add( "lookup " + name + " and caller dies", [=]{ ++w.deaths; push_lookup( name, Semantic::regular, Requester::internal, -1, {}, true);});
            if( w.external) lookup( " external", Semantic::regular, Requester::external);
            if( w.no_reply) lookup( " no reply", Semantic::no_reply, Requester::internal);
            if( w.wait) lookup( " wait", Semantic::wait, Requester::internal);
            if( w.transactions) { lookup( " in transaction 0", Semantic::regular, Requester::internal, 0); lookup( " in transaction 1", Semantic::regular, Requester::internal, 1);}
            if( w.caller_deadline) lookup( " with short deadline", Semantic::regular, Requester::internal, -1, vk::kernel::now() + 3 * ms);
         }
      }

      // withdraw
      if( w.discards < w.max_discards)
         for( int i = 0; i < int( w.lookups.size()); ++i)
         {
            auto& l = w.lookups[ i];
            if( ! l.caller->alive || l.discard_sent) continue;
            if( l.status != Status::waiting && ! ( l.status == Status::granted && w.servers[ l.server].alive)) continue;
            for( bool reply : { true, false})
               add( label( i) + " withdraws" + ( reply ? "" : ", no answer wanted"), [i, reply]
               {
                  auto& l = w.lookups[ i];
                  ++w.discards;
                  msg::service::lookup::discard::Request request{ l.caller->handle};
                  request.correlation = cc::strong::correlation::id{ l.correlation};
                  request.requested = l.service;
                  request.reply = reply;
                  l.discard_sent = reply;
                  if( l.status == Status::granted)
                  {
                     w.servers[ l.server].holder = -1;
                     l.status = Status::withdrawn;
                  }
                  else if( ! reply)
                     l.status = Status::withdrawn;
                  vkc::to_self( request);
               });
         }

      // callers die while they wait
      if( w.deaths < w.max_deaths)
         for( int i = 0; i < int( w.lookups.size()); ++i)
            if( w.lookups[ i].status == Status::waiting && w.lookups[ i].caller->alive)
               add( label( i) + " caller dies", [i]
               {
                  ++w.deaths;
                  w.lookups[ i].caller->die();
               });

      // servers die
      if( w.exits < w.max_exits)
         for( int s = 0; s < int( w.servers.size()); ++s)
            if( w.servers[ s].started && w.servers[ s].alive)
               add( server_name( s) + " dies", [s]{ ++w.exits; leave_server( s);});

      // advertise
      if( w.advertises < w.max_advertises)
      {
         for( int s = 0; s < int( w.servers.size()); ++s)
         {
            auto& server = w.servers[ s];
            if( ! server.alive || ( server.draining && server.holder < 0) || server.doomed) continue;
            add( server_name( s) + " advertises A", [s]{ ++w.advertises; advertise( s, { "A"}, {});});
            if( w.names.size() > 1) add( server_name( s) + " advertises B", [s]{ ++w.advertises; advertise( s, { "B"}, {});});
            if( w.unadvertise && server.offers.contains( "A")) add( server_name( s) + " unadvertises A", [s]{ ++w.advertises; advertise( s, {}, { "A"});});
         }
         for( int g = 0; g < int( w.gateways.size()); ++g)
         {
            auto& gateway = w.gateways[ g];
            auto tag = "g" + std::to_string( g + 1);
            if( ! gateway.alive) continue;
            if( ! gateway.offers.contains( "A"))
            {
               add( tag + " advertises A", [g]{ ++w.advertises; connection( g, w.gateways[ g].order, { { "A", 0}});});
               if( w.orders) add( tag + " advertises A, one hop", [g]{ ++w.advertises; connection( g, w.gateways[ g].order, { { "A", 1}});});
            }
            else if( gateway.started)
            {
               add( tag + " unadvertises A", [g]{ ++w.advertises; connection( g, w.gateways[ g].order, {}, { "A"});});
               add( tag + " reset", [g]
               {
                  ++w.advertises;
                  auto& gateway = w.gateways[ g];
                  msg::service::concurrent::Advertise message{ gateway.peer->handle};
                  message.directive = decltype( message.directive)::reset;
                  gateway.offers.clear();
                  vkc::to_self( message);
               });
               if( w.orders)
                  for( int order = 0; order < 2; ++order)
                     if( order != gateway.order)
                        add( tag + " gets order " + std::to_string( order), [g, order]
                        {
                           ++w.advertises;
                           auto& gateway = w.gateways[ g];
                           msg::service::concurrent::Advertise message{ gateway.peer->handle};
                           message.directive = decltype( message.directive)::instance;
                           message.order = order;
                           message.alias = "g";
                           gateway.order = order;
                           vkc::to_self( message);
                        });
            }
         }
      }

      // transactions end
      for( auto& [ gtrid, gateways] : w.associated)
         if( ! gateways.empty())
            add( "transaction " + std::to_string( gtrid) + " ends", [gtrid = gtrid]
            {
               w.associated[ gtrid].clear();
               msg::event::transaction::Disassociate event;
               event.gtrid = cc::transaction::global::ID( std::string( "G") + std::to_string( gtrid));
               vkc::to_self( event);
            });

      // the other domains answer
      for( int i = 0; i < int( w.lookups.size()); ++i)
         if( w.lookups[ i].discovery)
            add( "discovery answers for " + label( i), [i]
            {
               w.lookups[ i].discovery = false;
               disc::api::Reply reply;
               reply.correlation = cc::strong::correlation::id{ w.lookups[ i].correlation};
               vkc::to_self( reply);
            });

      // shutdown
      if( w.prepares < w.max_prepares)
      {
         auto prepare = [&]( std::vector< int> servers, bool unknown)
         {
            for( auto s : servers) if( ! w.servers[ s].started || ! w.servers[ s].alive || w.servers[ s].draining) return;
            std::string text = "shutdown of";
            for( auto s : servers) text += " " + server_name( s);
            if( unknown) text += " and another";
            add( text, [servers, unknown]
            {
               ++w.prepares;
               Shutdown shutdown;
               shutdown.correlation = vkc::uuid( 0x41, w.shutdowns.size());
               shutdown.servers = servers;
               shutdown.unknown = unknown;
               msg::domain::process::prepare::shutdown::Request request{ vkc::domain().peer->handle};
               request.correlation = cc::strong::correlation::id{ shutdown.correlation};
               for( auto s : servers)
               {
                  w.servers[ s].draining = true;
                  request.processes.push_back( w.servers[ s].peer->handle);
               }
               if( unknown) request.processes.push_back( w.unknown);
               w.shutdowns.push_back( shutdown);
               vkc::to_self( request);
            });
         };
         for( int s = 0; s < int( w.servers.size()); ++s) prepare( { s}, false);
         if( w.servers.size() > 1) { prepare( { 0, 1}, false); prepare( { 0, 1}, true);}
      }

      if( w.fires < w.max_fires && vk::kernel::timer() >= 0)
         add( "time passes to the timer", []
         {
            ++w.fires;
            vk::kernel::advance( std::max< std::int64_t>( 0, vk::kernel::timer() - vk::kernel::now()) + 1000);
         });
      // time passes a bit
      if( w.max_fires > 0 && w.fires < w.max_fires)
      {
         bool pending = vk::kernel::timer() >= 0 && vk::kernel::timer() - vk::kernel::now() > 1 * ms + 1000;
         if( pending) add( "1 ms passes", []{ vk::kernel::advance( 1 * ms);});
      }
      return result;
   }

   bool booted = false;

   void step()
   {
      if( booted) quiescent();
      booted = true;

      if( w.depth >= w.limit) vk::finish();
      vk::visit_or_finish( fingerprint(), w.limit - w.depth);
      auto possible = actions();
      if( possible.empty()) vk::finish( "nothing left");
      std::vector< std::string> names;
      for( auto& a : possible) names.push_back( a.first);
      auto choice = vk::choose( names, std::to_string( w.depth + 1));
      ++w.depth;
      vk::transition();
      possible[ choice].second();
   }

   // ------------------------------------------------------------ scenarios

   struct Scenario { std::string name; std::function< void()> setup;};

   void make_servers( int n)
   {
      for( int i = 0; i < n; ++i)
      {
         Server s;
         s.peer = &vkc::peer( server_name( i), 0x20, i);
         s.peer->other = []( auto&){};
         w.servers.push_back( s);
      }
   }
   void make_gateways( int n)
   {
      for( int i = 0; i < n; ++i)
      {
         Gateway g;
         g.peer = &vkc::peer( "g" + std::to_string( i + 1), 0x21, i);
         w.gateways.push_back( g);
      }
   }

   void configure( const std::string& service, std::int64_t timeout, std::optional< Contract> contract)
   {
      w.services[ service] = { timeout, contract};
      configuration::model::service::Service s;
      s.name = service;
      s.timeout.duration = std::chrono::duration_cast< platform::time::unit>( std::chrono::nanoseconds{ timeout});
      s.timeout.contract = contract;
      vkc::domain().model.service.services.push_back( s);
   }

   std::vector< Scenario> scenarios( const std::string& property)
   {
      std::vector< Scenario> result;
      bool deep = vk::thorough();
      auto add = [&]( std::string name, std::function< void()> f){ result.push_back( { name, f});};

      if( property == "S01")
      {
         add( "two servers, two services", [=]
         {
            make_servers( 2);
            w.names = { "A", "B"}; w.max_lookups = deep ? 4 : 3; w.max_exits = 1; w.max_advertises = 2; w.unadvertise = true; w.max_discards = 1; w.max_deaths = 0; w.limit = deep ? 9 : 6;
            advertise( 0, { "A", "B"}, {});
            advertise( 1, { "A"}, {});
         });
         add( "one server, one connection, calls from outside", [=]
         {
            make_servers( 1); make_gateways( 1);
            w.max_lookups = deep ? 4 : 3; w.max_exits = 1; w.max_advertises = 2; w.unadvertise = true; w.max_discards = 1; w.max_deaths = 1; w.external = true; w.no_reply = true; w.limit = deep ? 8 : 6;
            advertise( 0, { "A"}, {});
         });
         add( "calls that time out", [=]
         {
            configure( "A", 10 * ms, std::nullopt); configure( "B", 10 * ms, Contract::kill);
            make_servers( 2);
            w.names = { "A", "B"}; w.max_lookups = deep ? 4 : 3; w.max_exits = 1; w.max_advertises = deep ? 1 : 0; w.max_discards = 1; w.max_deaths = 0; w.max_fires = deep ? 2 : 1; w.limit = deep ? 9 : 6;
            advertise( 0, { "A", "B"}, {});
            advertise( 1, { "A"}, {});
         });
      }
      if( property == "S02")
      {
         add( "one server, callers that wait, withdraw and die", [=]
         {
            make_servers( 1);
            w.max_lookups = deep ? 5 : 4; w.max_exits = 1; w.max_advertises = 1; w.max_discards = deep ? 2 : 1; w.max_deaths = deep ? 2 : 1; w.limit = deep ? 10 : 7;
            advertise( 0, { "A"}, {});
         });
         add( "two servers that come and go", [=]
         {
            make_servers( 2);
            w.names = { "A", "B"}; w.max_lookups = deep ? 4 : 3; w.max_exits = deep ? 2 : 1; w.max_advertises = deep ? 3 : 2; w.unadvertise = true; w.max_discards = 1; w.max_deaths = deep ? 1 : 0; w.limit = deep ? 8 : 6;
            advertise( 0, { "A", "B"}, {});
            advertise( 1, { "A"}, {});
         });
         add( "callers that wait for a service to appear, or ask other domains", [=]
         {
            make_servers( 1); make_gateways( 1);
            w.wait = true; w.external = true; w.max_lookups = deep ? 4 : 3; w.max_exits = 1; w.max_advertises = deep ? 3 : 2; w.unadvertise = true; w.max_discards = 1; w.max_deaths = deep ? 1 : 0; w.limit = deep ? 8 : 6;
         });
      }
      if( property == "S03")
      {
         add( "deadlines, contract linger", [=]
         {
            configure( "A", 10 * ms, std::nullopt); configure( "B", 5 * ms, Contract::linger);
            make_servers( 2);
            w.names = { "A", "B"}; w.max_lookups = deep ? 4 : 3; w.max_exits = deep ? 1 : 0; w.max_advertises = 0; w.max_discards = 1; w.max_deaths = 0; w.max_fires = deep ? 3 : 2; w.caller_deadline = true; w.transactional_acks = true; w.limit = deep ? 9 : 6;
            advertise( 0, { "A", "B"}, {});
            advertise( 1, { "A"}, {});
         });
         add( "deadlines, contract kill, server lost", [=]
         {
            configure( "A", 10 * ms, Contract::kill);
            make_servers( 2);
            w.max_lookups = deep ? 5 : 4; w.max_exits = deep ? 2 : 1; w.max_advertises = 0; w.max_discards = deep ? 1 : 0; w.max_deaths = 0; w.max_fires = deep ? 3 : 2; w.limit = deep ? 10 : 8;
            advertise( 0, { "A"}, {});
            advertise( 1, { "A"}, {});
         });
      }
      if( property == "S04")
      {
         add( "shutdown of one and both of two servers", [=]
         {
            make_servers( 2);
            w.names = { "A", "B"}; w.max_lookups = 3; w.max_exits = 1; w.max_advertises = 1; w.max_discards = 1; w.max_deaths = deep ? 1 : 0; w.max_prepares = deep ? 2 : 2; w.limit = deep ? 9 : 6;
            advertise( 0, { "A", "B"}, {});
            advertise( 1, { "A"}, {});
         });
         add( "shutdown and calls without reply", [=]
         {
            make_servers( 2);
            w.no_reply = true; w.max_lookups = deep ? 3 : 2; w.max_exits = 1; w.max_advertises = 0; w.max_discards = 0; w.max_deaths = deep ? 1 : 0; w.max_prepares = 2; w.limit = deep ? 8 : 6;
            advertise( 0, { "A"}, {});
            advertise( 1, { "A"}, {});
         });
         add( "shutdown and deadlines", [=]
         {
            configure( "A", 10 * ms, std::nullopt);
            make_servers( 2);
            w.max_lookups = 3; w.max_exits = 1; w.max_advertises = 0; w.max_discards = 1; w.max_deaths = 0; w.max_prepares = 2; w.max_fires = deep ? 2 : 1; w.limit = deep ? 9 : 7;
            advertise( 0, { "A"}, {});
            advertise( 1, { "A"}, {});
         });
      }
      if( property == "S05")
      {
         add( "three connections, orders and hops, transactions", [=]
         {
            make_gateways( 3);
            w.max_lookups = deep ? 4 : 3; w.max_exits = 0; w.max_advertises = deep ? 3 : 2; w.orders = true; w.transactions = true; w.max_discards = 0; w.max_deaths = 0; w.limit = deep ? 7 : 5;
            connection( 0, 0, { { "A", 0}});
            connection( 1, 0, { { "A", 0}});
            connection( 2, 1, { { "A", 0}});
         });
         add( "two connections with different distance, and a local server", [=]
         {
            make_gateways( 2); make_servers( 1);
            w.max_lookups = deep ? 4 : 3; w.max_exits = 1; w.max_advertises = deep ? 4 : 3; w.orders = true; w.unadvertise = true; w.external = true; w.transactions = deep; w.max_discards = 0; w.max_deaths = 0; w.limit = deep ? 7 : 5;
            connection( 0, 1, { { "A", 1}});
            connection( 1, 1, { { "A", 0}});
         });
      }
      return result;
   }

   void body( const std::string& property)
   {
      auto list = scenarios( property);
      std::vector< std::string> names;
      for( auto& s : list) names.push_back( s.name);
      auto chosen = vk::choose( names, "scenario");
      w.scenario = names[ chosen];

      vkc::boot();
      auto& domain = *vkc::domain().peer;

      w.forward = &vkc::peer( "forward", 0x22, 1);
      w.forward->other = []( auto&){};
      vkc::domain().singleton( service::forward::instance::identity, w.forward->handle);
      vk::kernel::on_spawn = []( auto&, auto&, auto&) { return int( w.forward->handle.pid.value());};

      w.discovery = &vkc::peer( "discovery", 0x23, 1);
      vkc::domain().singleton( domain::discovery::instance::identity, w.discovery->handle);
      w.discovery->on< disc::api::provider::registration::Request>( []( auto& request)
      {
         vkc::push( request.process.ipc, msg::reverse::type( request));
      });
      w.discovery->on< disc::api::Request>( []( auto& request)
      {
         auto index = lookup_by( request.correlation.value());
         if( index < 0) violation( "a question about something nobody has asked for");
         w.lookups[ index].discovery = true;
         vk::note( "   -> discovery is asked for " + label( index));
      });

      w.tm = &vkc::peer( "tm", 0x24, 1);
      w.tm->other = []( auto&){};
      w.tm->on< msg::transaction::rollback::Request>( []( auto& request)
      {
         vk::evaluated();
         for( auto i : w.rollbacks) if( trid_of( i) == request.trid)
         {
            vk::cover( "rollback of a call that has timed out");
            w.rollbacks.erase( i);
            return;
         }
         violation( "a transaction is rolled back though its call has not timed out");
      });
      vkc::domain().singleton( cc::communication::instance::identity::transaction::manager, w.tm->handle);

      domain.on< msg::domain::process::prepare::shutdown::Reply>( []( auto& reply)
      {
         for( auto& s : w.shutdowns)
            if( s.correlation == reply.correlation.value())
            {
               vk::note( "   -> shutdown: " + vkc::text( reply.processes));
               for( auto& p : reply.processes)
               {
                  vk::evaluated();
                  if( p.pid == w.unknown.pid)
                  {
                     if( s.unknown_listed) violation( "a process is answered twice in shutdown");
                     s.unknown_listed = true;
                     continue;
                  }
                  bool found = false;
                  for( auto i : s.servers) if( w.servers[ i].peer->handle == p)
                  {
                     found = true;
                     if( ! s.listed.insert( i).second) violation( "a process is answered twice in shutdown", server_name( i));
                     if( ! idle( w.servers[ i]) && w.servers[ i].alive) violation( "a shutdown is answered while the instance serves a call", server_name( i));
                  }
                  if( ! found) violation( "a shutdown answer lists a process that was not asked about");
               }
               return;
            }
         violation( "a shutdown answer that nobody asked for");
      });
      domain.on< msg::event::process::Assassination>( []( auto& event)
      {
         vk::note( "   -> assassination of " + vkc::text( event.target) + " " + vkc::text( event.contract));
         vk::evaluated();
         for( int i = 0; i < int( w.servers.size()); ++i)
            if( w.servers[ i].peer->handle.pid == event.target)
            {
               auto& s = w.servers[ i];
               if( s.holder < 0 || ! s.reported) violation( "an assassination of a server whose call has not timed out", server_name( i));
               auto wanted = w.services[ w.lookups[ s.holder].service].contract.value_or( Contract::linger);
               if( event.contract != wanted) violation( "the wrong contract is applied", server_name( i));
               return;
            }
         violation( "an assassination of an unknown process");
      });

      w.unknown = cc::process::Handle{ cc::strong::process::id{ 9999}, cc::strong::ipc::id{ vkc::uuid( 0x50, 1)}};
      list[ chosen].setup();

      vk::kernel::idle = []( auto&, auto&){ step();};

      const char* argv[] = { "/nowhere/casual-service-manager", nullptr};
      sut_main( 1, argv);
      violation( "the service manager ended");
   }
}

int main( int argc, char** argv)
{
   return vkc::main( argc, argv, {
      .rule = "from the initial state of each scenario, every sequence of actions (lookups of each kind, acknowledgements, withdrawals, deaths of callers and servers, advertise and unadvertise, answers from discovery, shutdown requests, timer expiries) up to the stated depth is applied to the real casual-service-manager; states are merged when the manager's state, the virtual kernel and the reference model agree",
      .assumptions = { "datagram delivery in order between processes, one message handled at a time (as in casual)", "an expired timer is seen strictly after its due time"},
      }, []( const std::string& property){ body( property);});
}
