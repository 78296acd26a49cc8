//! T01 - T03: the real casual-transaction-manager on a virtual kernel and an in-memory disk. Owners, superior
//! domains, resource proxies and external resources are peers, whose every order of messages, votes, failures
//! and deaths within the bounds of a scenario is explored. See DESIGN.md
#include "vkc.h"
#include "vkfs.h"

#include "transaction/manager/state.h"
#include "transaction/manager/handle.h"
#include "common/message/transaction.h"
#include "common/message/event.h"

#include <regex>

using namespace casual;
namespace cc = casual::common;
namespace msg = casual::common::message;
namespace txm = casual::common::message::transaction;
namespace tr = casual::common::message::transaction::resource;

extern "C" int sut_main( int argc, const char** argv);

namespace { transaction::manager::State* sut_state = nullptr;}

transaction::manager::handle::dispatch_type real_handlers( transaction::manager::State&) asm( "__real__ZN6casual11transaction7manager6handle8handlersERNS1_5StateE");
transaction::manager::handle::dispatch_type wrap_handlers( transaction::manager::State& state) asm( "__wrap__ZN6casual11transaction7manager6handle8handlersERNS1_5StateE");
transaction::manager::handle::dispatch_type wrap_handlers( transaction::manager::State& state)
{
   sut_state = &state;
   return real_handlers( state);
}

namespace
{
   using xa = cc::code::xa;
   using tx = cc::code::tx;
   const std::string database = "/vk/tm.db";

   enum class Phase { prepare, commit, rollback};
   const char* name( Phase p) { static const char* names[] = { "prepare", "commit", "rollback"}; return names[ int( p)];}

   //! a resource manager, behind one or more processes
   struct Participant
   {
      std::string name;
      bool external{};
      bool known{};                       //!< externals: has announced itself
      bool lost{};                        //!< externals: the process is gone
      int instances = 1;                  //!< local: configured
      cc::strong::resource::id id;        //!< local
   };

   struct Instance
   {
      int participant = -1;
      vkc::Peer* peer{};
      bool ready{};
      bool alive = true;
   };

   //! what a participant has to do with a branch of a transaction
   struct Part
   {
      int participant = -1;
      int branch = 0;
      bool asked{};                       //!< to prepare
      std::optional< xa> vote;
      bool lost{};                        //!< gone before it was done
      int commits = 0, rollbacks = 0;     //!< received
      std::optional< xa> result;          //!< of commit or rollback
      bool one_phase{};
   };

   enum class Ask { commit, rollback, prepare, resource_commit, resource_rollback};
   const char* name( Ask a) { static const char* names[] = { "commit", "rollback", "superior prepare", "superior commit", "superior rollback"}; return names[ int( a)];}

   struct Control
   {
      Ask ask{};
      int transaction = 0;
      int who = 0;                        //!< superior
      bool duplicate{};                   //!< by another connection of the superior, when the first is in progress
      bool early{};                       //!< the "prepared" answer has come
      bool answered{};
      vkc::Peer* peer{};
      std::string answer;
   };

   enum class Decision { none, commit, rollback};

   struct Transaction
   {
      bool superior{};
      bool announced{};                   //!< the branch has been given
      bool active{};                      //!< the manager should know about it
      bool owner_dead{};
      bool owner_dead_first{};            //!< before anything was asked for
      Decision decision = Decision::none;
      bool refused{};                     //!< someone voted no, or got lost before it voted
      bool prepared{};                    //!< answered as prepared
      std::vector< cc::transaction::ID> branches;
      std::vector< Part> parts;
      bool ended{};
   };

   //! a request at a participant, not answered
   struct Outstanding
   {
      Phase phase{};
      int instance = -1;
      int transaction = -1, part = -1;
      cc::transaction::ID trid;
      cc::strong::resource::id resource;
      cc::strong::correlation::id correlation;
      cc::strong::execution::id execution;
   };

   struct World
   {
      std::string scenario;
      int depth = 0, limit = 6;
      std::vector< Participant> participants;
      std::vector< Instance> instances;
      std::vector< Transaction> transactions;
      std::vector< Control> controls;
      std::vector< Outstanding> outstanding;
      std::vector< vkc::Peer*> owners, superiors;
      vkc::Peer* server{};
      vkc::Peer* observer{};
      bool hold{};
      int held = 0;
      std::optional< std::vector< cc::transaction::global::ID>> actives;
      bool observing{};

      // bounds
      int max_errors = 1, errors = 0;
      int max_read_only = 1, read_only = 0;
      int max_branches = 1;
      int max_deaths = 0, deaths = 0;     //!< of owners
      int max_losses = 0, losses = 0;     //!< of externals
      int max_proxy_deaths = 0, proxy_deaths = 0;
      int max_batches = 0, batches = 0;
      int max_duplicates = 0, duplicates = 0;
      int max_involved = 2;               //!< parts per transaction
      bool immediate{};                   //!< the participants answer at once
      bool slow{};                        //!< proxies get ready as an action
      bool by_request{};                  //!< participants are told with the commit or rollback request
      bool steady = true;                 //!< the log has been written before (it starts without a database transaction of its own)
      bool pids{};                        //!< the two externals are one process with two channels
   };
   World& w = *new World;

   cc::Uuid gtrid( int t) { return vkc::uuid( 0x50, t);}

   bool same( cc::transaction::global::id::range range, const cc::Uuid& uuid)
   {
      return std::size( range) == 16 && std::memcmp( std::data( range), &uuid.get(), 16) == 0;
   }

   int transaction_by( const cc::transaction::ID& trid)
   {
      for( int t = 0; t < int( w.transactions.size()); ++t)
      {
         auto g = gtrid( t);
         if( same( cc::transaction::id::range::global( trid), g)) return t;
      }
      return -1;
   }

   cc::transaction::global::ID global( int t)
   {
      return cc::transaction::global::ID{ cc::transaction::id::range::global( cc::transaction::ID{ gtrid( t), gtrid( t), {}})};
   }

   std::string dump()
   {
      std::ostringstream out;
      for( int t = 0; t < int( w.transactions.size()); ++t)
      {
         auto& x = w.transactions[ t];
         out << 'T' << t << ( x.superior ? " superior" : "") << ( x.announced ? " announced" : "") << ( x.active ? " active" : "") << ( x.owner_dead ? " owner dead" : "") << ( x.owner_dead_first ? " first" : "") << " decision " << int( x.decision) << ( x.refused ? " refused" : "") << ( x.prepared ? " prepared" : "") << ( x.ended ? " ended" : "") << '\n';
         for( auto& p : x.parts)
            out << "  " << w.participants[ p.participant].name << " b" << p.branch << ( p.asked ? " asked" : "") << " vote " << ( p.vote ? vkc::text( *p.vote) : "-") << ( p.lost ? " lost" : "") << " c" << p.commits << " r" << p.rollbacks << " result " << ( p.result ? vkc::text( *p.result) : "-") << ( p.one_phase ? " 1p" : "") << '\n';
      }
      for( auto& c : w.controls)
         out << name( c.ask) << " T" << c.transaction << " by " << c.peer->name << ( c.early ? " prepared" : "") << ( c.answered ? " answered " : "") << c.answer << '\n';
      for( auto& o : w.outstanding)
         out << "at " << w.instances[ o.instance].peer->name << ": " << name( o.phase) << " T" << o.transaction << " b" << w.transactions[ o.transaction].parts[ o.part].branch << '\n';
      return out.str();
   }

   [[noreturn]] void violation( const std::string& kind, const std::string& text = {}) { vk::violation( kind, text + "\n" + dump());}

   // ------------------------------------------------------------ the log

   std::set< int> logged( const vkfs::Image& image)
   {
      static std::map< std::string, int> names;
      static const char* digits = "0123456789ABCDEF";
      if( names.size() < w.transactions.size())
         for( int t = 0; t < int( w.transactions.size()); ++t)
         {
            std::string text;
            auto g = gtrid( t);
            for( auto b : g.range()) { text += digits[ std::to_integer< int>( b) >> 4]; text += digits[ std::to_integer< int>( b) & 15];}
            names[ text] = t;
         }
      std::set< int> result;
      for( auto& row : vkfs::query( image, "SELECT hex( gtrid) FROM trans"))
      {
         if( row.back().find( "no such table") != std::string::npos) continue; // not even created
         if( row[ 0] == "error") violation( "the log can not be read", row.back());
         auto found = names.find( row[ 0]);
         if( found != names.end()) result.insert( found->second);
         else violation( "an unknown transaction in the log", row[ 0]);
      }
      return result;
   }

   const std::set< int>& on_disk()
   {
      static vkfs::Image last;
      static std::set< int> result;
      auto image = vkfs::image( database);
      if( image.log != last.log || image.database != last.database) { result = logged( image); last = image;}
      return result;
   }

   bool completed( const Transaction& x)
   {
      return std::all_of( x.parts.begin(), x.parts.end(), []( auto& p){ return p.lost || p.result || ( p.vote && *p.vote == xa::read_only);});
   }

   bool yes( const std::optional< xa>& vote) { return vote && ( *vote == xa::ok || *vote == xa::read_only);}

   void check_log()
   {
      vk::evaluated();
      auto& rows = on_disk();
      for( int t = 0; t < int( w.transactions.size()); ++t)
      {
         auto& x = w.transactions[ t];
         if( x.prepared && ! rows.contains( t) && ! completed( x))
            violation( "a transaction has been answered as prepared, but is not in the log and not completed", "T" + std::to_string( t));
         if( rows.contains( t) && ! std::all_of( x.parts.begin(), x.parts.end(), []( auto& p){ return yes( p.vote);}))
            violation( "the log says that a transaction is prepared, but someone has not voted yes", "T" + std::to_string( t));
      }
   }

   //! nobody has been lost, not even after it was done
   bool all_alive( const Transaction& x) { return std::none_of( x.parts.begin(), x.parts.end(), []( auto& p){ return p.lost || w.participants[ p.participant].lost;});}

   // ------------------------------------------------------------ participants

   void reply( std::size_t index, xa code);

   std::vector< xa> codes( const Outstanding& o)
   {
      std::vector< xa> result{ xa::ok};
      auto& part = w.transactions[ o.transaction].parts[ o.part];
      if( o.phase == Phase::prepare && w.read_only < w.max_read_only) result.push_back( xa::read_only);
      if( w.errors < w.max_errors)
      {
         if( o.phase == Phase::prepare) { result.push_back( xa::rollback_other); result.push_back( xa::resource_error);}
         else if( part.one_phase) { result.push_back( xa::rollback_other); result.push_back( xa::read_only);}
         else if( o.phase == Phase::commit) { result.push_back( xa::resource_fail); result.push_back( xa::heuristic_mix);}
         else { result.push_back( xa::resource_fail); result.push_back( xa::invalid_xid);}
      }
      return result;
   }

   template< typename M>
   void asked( int instance, Phase phase, M& m)
   {
      auto& inst = w.instances[ instance];
      auto& participant = w.participants[ inst.participant];
      auto t = transaction_by( m.trid);
      if( t < 0) violation( "a resource is asked about an unknown transaction", vkc::text( m));
      auto& x = w.transactions[ t];
      vk::note( "   -> " + inst.peer->name + ": " + name( phase) + " T" + std::to_string( t) + ( cc::flag::contains( m.flags, cc::flag::xa::Flag::one_phase) ? " one phase" : ""));
      vk::evaluated( 3);

      int part = -1;
      for( int k = 0; k < int( x.parts.size()); ++k)
         if( x.parts[ k].participant == inst.participant && x.branches[ x.parts[ k].branch] == m.trid) part = k;
      if( part < 0) violation( "a resource is asked about a branch that it does not take part in", inst.peer->name + " T" + std::to_string( t));
      if( ! participant.external && m.resource != participant.id) violation( "a request reaches the wrong resource", inst.peer->name);
      for( auto& o : w.outstanding)
         if( o.instance == instance && ! participant.external) violation( "a resource proxy that is busy gets another request", inst.peer->name);

      auto& p = x.parts[ part];
      if( p.lost) p.lost = false; // not lost after all
      bool by_owner = false, rollback = x.owner_dead_first, prepare = false;
      for( auto& c : w.controls)
         if( c.transaction == t)
         {
            if( c.ask == Ask::commit || c.ask == Ask::resource_commit) by_owner = true;
            if( c.ask == Ask::prepare) prepare = true;
            if( c.ask == Ask::rollback || c.ask == Ask::resource_rollback) rollback = true;
         }
      switch( phase)
      {
         case Phase::prepare:
            if( ! by_owner && ! prepare) violation( "a resource has to prepare though nobody has asked for a commit");
            if( x.decision != Decision::none) violation( "a resource has to prepare after the decision");
            if( p.asked) violation( "a resource has to prepare twice");
            p.asked = true;
            break;
         case Phase::commit:
            if( ! by_owner) violation( "a resource has to commit though nobody has asked for it");
            if( x.decision == Decision::rollback) violation( "one resource rolls back, another commits", inst.peer->name + " commits");
            if( cc::flag::contains( m.flags, cc::flag::xa::Flag::one_phase))
            {
               if( x.parts.size() != 1) violation( "the decision is delegated to one of several resources", inst.peer->name);
               p.one_phase = true;
            }
            else
               for( auto& other : x.parts)
                  if( ! yes( other.vote)) violation( "a resource has to commit, but not everyone has voted yes", w.participants[ other.participant].name);
            ++p.commits;
            x.decision = Decision::commit;
            break;
         case Phase::rollback:
            if( x.decision == Decision::commit) violation( "one resource commits, another rolls back", inst.peer->name + " rolls back");
            if( ! rollback && ! x.refused && all_alive( x)) violation( "a resource has to roll back without a reason", inst.peer->name);
            ++p.rollbacks;
            x.decision = Decision::rollback;
            break;
      }
      w.outstanding.push_back( { phase, instance, t, part, m.trid, m.resource, m.correlation, m.execution});
      if( w.immediate)
      {
         auto possible = codes( w.outstanding.back());
         std::vector< std::string> names;
         for( auto c : possible) names.push_back( vkc::text( c));
         reply( w.outstanding.size() - 1, possible[ vk::choose( names, inst.peer->name + " answers")]);
      }
   }

   void reply( std::size_t index, xa code)
   {
      auto o = w.outstanding[ index];
      w.outstanding.erase( w.outstanding.begin() + index);
      auto& x = w.transactions[ o.transaction];
      auto& p = x.parts[ o.part];
      if( code == xa::read_only && o.phase == Phase::prepare) ++w.read_only;
      else if( code != xa::ok) ++w.errors;
      if( o.phase == Phase::prepare)
      {
         p.vote = code;
         if( ! yes( p.vote)) x.refused = true;
      }
      else
      {
         p.result = code;
         if( p.one_phase && code != xa::ok && code != xa::read_only) x.refused = true;
      }
      auto send = [&]( auto message)
      {
         message.process = w.instances[ o.instance].peer->handle;
         message.correlation = o.correlation;
         message.execution = o.execution;
         message.trid = o.trid;
         message.resource = o.resource;
         message.state = code;
         vkc::to_self( message);
      };
      switch( o.phase)
      {
         case Phase::prepare: send( tr::prepare::Reply{}); break;
         case Phase::commit: send( tr::commit::Reply{}); break;
         case Phase::rollback: send( tr::rollback::Reply{}); break;
      }
   }

   void connect( int instance)
   {
      auto& peer = *w.instances[ instance].peer;
      peer.on< tr::prepare::Request>( [instance]( auto& m){ asked( instance, Phase::prepare, m);});
      peer.on< tr::commit::Request>( [instance]( auto& m){ asked( instance, Phase::commit, m);});
      peer.on< tr::rollback::Request>( [instance]( auto& m){ asked( instance, Phase::rollback, m);});
      peer.on< tr::configuration::Reply>( []( auto&){});
   }

   void ready( int instance)
   {
      auto& i = w.instances[ instance];
      i.ready = true;
      tr::Ready m{ i.peer->handle};
      m.id = w.participants[ i.participant].id;
      vkc::to_self( m);
   }

   // ------------------------------------------------------------ answers

   int control_by( const cc::Uuid& correlation)
   {
      auto& v = correlation.get();
      if( v[ 0] != 0xee || v[ 1] != 0x60) return -1;
      return v[ 2] < w.controls.size() ? v[ 2] : -1;
   }

   //! the transaction is over: everyone who took part has the decision
   void over( int t)
   {
      auto& x = w.transactions[ t];
      vk::evaluated( x.parts.size());
      for( auto& p : x.parts)
      {
         if( p.lost) continue;
         auto who = w.participants[ p.participant].name;
         if( p.vote && *p.vote == xa::read_only) continue;
         if( x.decision == Decision::commit && ! p.commits) violation( "a resource that took part is not told to commit", who);
         if( x.decision == Decision::rollback && ! p.rollbacks && ! ( p.vote && ! yes( p.vote))) violation( "a resource that took part is not told to roll back", who);
         if( x.decision == Decision::none) violation( "a resource that took part is not told anything", who);
         if( ! p.result && ( p.commits || p.rollbacks)) violation( "the final answer is sent before the resource has answered", who);
      }
      x.ended = true;
      x.active = false;
   }

   bool all_results( const Transaction& x, std::initializer_list< xa> codes)
   {
      return std::all_of( x.parts.begin(), x.parts.end(), [&]( auto& p){ return ! p.result || std::find( codes.begin(), codes.end(), *p.result) != codes.end();});
   }

   bool all_told( const Transaction& x) { return std::none_of( x.parts.begin(), x.parts.end(), []( auto& p){ return p.lost;});}

   template< typename M>
   int answer( int expected, const M& m, std::initializer_list< Ask> asks, const std::string& text)
   {
      auto i = control_by( m.correlation.value());
      if( i < 0 || w.controls[ i].peer != w.controls[ expected].peer) violation( "an answer with the wrong correlation", text);
      auto& c = w.controls[ i];
      vk::note( "   -> " + c.peer->name + ": " + text);
      vk::evaluated( 2);
      if( std::find( asks.begin(), asks.end(), c.ask) == asks.end()) violation( "an answer of the wrong kind", text);
      if( c.answered) violation( "a request is answered more than once", text);
      if( transaction_by( m.trid) != c.transaction) violation( "an answer about another transaction", text);
      return i;
   }

   vkc::Peer& control_peer( int i)
   {
      auto& c = w.controls[ i];
      auto& p = *c.peer;
      p.on< txm::commit::Reply>( [i]( auto& m)
      {
         auto k = answer( i, m, { Ask::commit}, vkc::text( m.state) + " stage " + vkc::text( m.stage));
         auto& c = w.controls[ k];
         auto& x = w.transactions[ c.transaction];
         using Stage = decltype( m.stage);
         c.answer += vkc::text( m.state) + '/' + vkc::text( m.stage) + ' ';
         if( m.stage == Stage::prepare)
         {
            if( c.early) violation( "a commit is answered as prepared more than once");
            c.early = true;
            if( m.state != tx::ok) violation( "a commit fails in the stage prepare", vkc::text( m.state));
            x.prepared = true;
            if( x.decision == Decision::rollback) violation( "a commit is answered as decided but is rolled back");
            for( auto& part : x.parts) if( ! yes( part.vote)) violation( "a commit is answered as decided but not everyone has voted yes");
            check_log();
            return;
         }
         c.answered = true;
         if( m.stage == Stage::rollback)
         {
            if( x.decision == Decision::commit) violation( "a commit is answered as rolled back but was not");
            if( ! x.refused && all_alive( x)) violation( "a commit is answered as rolled back without a reason");
         }
         else if( m.state == tx::ok)
         {
            if( x.decision == Decision::rollback || x.refused) violation( "a commit is answered with ok but was not");
            if( ! all_results( x, { xa::ok, xa::read_only, xa::invalid_xid})) violation( "a commit is answered with ok though a resource failed");
            if( ! all_told( x)) violation( "a commit is answered with ok though a resource was lost");
         }
         else if( x.decision != Decision::rollback && ! x.refused && all_alive( x) && all_results( x, { xa::ok, xa::read_only})) violation( "a commit is answered with an error without a reason", vkc::text( m.state));
         over( c.transaction);
         check_log();
      });
      p.on< txm::rollback::Reply>( [i]( auto& m)
      {
         auto k = answer( i, m, { Ask::rollback}, vkc::text( m.state));
         auto& c = w.controls[ k];
         auto& x = w.transactions[ c.transaction];
         c.answered = true;
         c.answer = vkc::text( m.state);
         if( x.decision == Decision::commit) violation( "a rollback is answered but the transaction was committed");
         bool fine = all_told( x) && all_results( x, { xa::ok, xa::read_only, xa::invalid_xid});
         if( m.state == tx::ok && ! fine) violation( "a rollback is answered with ok though a resource failed");
         if( m.state != tx::ok && all_alive( x) && all_results( x, { xa::ok, xa::read_only})) violation( "a rollback is answered with an error without a reason", vkc::text( m.state));
         over( c.transaction);
         check_log();
      });
      p.on< tr::prepare::Reply>( [i]( auto& m)
      {
         auto k = answer( i, m, { Ask::prepare}, "prepare " + vkc::text( m.state));
         auto& c = w.controls[ k];
         auto& x = w.transactions[ c.transaction];
         c.answered = true;
         c.answer = vkc::text( m.state);
         if( m.resource.value() != 500 + c.who) violation( "an answer about another resource");
         if( c.duplicate)
         {
            if( m.state != xa::read_only) violation( "a second connection gets another answer than read only", vkc::text( m.state));
            return;
         }
         if( m.state == xa::ok)
         {
            x.prepared = true;
            for( auto& part : x.parts) if( ! yes( part.vote)) violation( "a transaction is answered as prepared but not everyone has voted yes", w.participants[ part.participant].name);
            check_log();
         }
         else if( m.state == xa::read_only)
         {
            for( auto& part : x.parts) if( ! part.vote || *part.vote != xa::read_only) violation( "a transaction is answered as read only but is not", w.participants[ part.participant].name);
            over( c.transaction);
         }
         else if( ! x.refused && all_alive( x)) violation( "a prepare is refused without a reason", vkc::text( m.state));
      });
      p.on< tr::commit::Reply>( [i]( auto& m)
      {
         auto k = answer( i, m, { Ask::resource_commit}, "commit " + vkc::text( m.state));
         auto& c = w.controls[ k];
         auto& x = w.transactions[ c.transaction];
         c.answered = true;
         c.answer = vkc::text( m.state);
         if( m.resource.value() != 500 + c.who) violation( "an answer about another resource");
         if( c.duplicate)
         {
            if( m.state != xa::read_only) violation( "a second connection gets another answer than read only", vkc::text( m.state));
            return;
         }
         if( m.state == xa::ok || m.state == xa::read_only)
         {
            if( x.decision == Decision::rollback || x.refused) violation( "a commit is answered with ok but was not");
            if( ! all_results( x, { xa::ok, xa::read_only, xa::invalid_xid})) violation( "a commit is answered with ok though a resource failed");
            if( ! all_told( x)) violation( "a commit is answered with ok though a resource was lost");
         }
         else if( x.decision != Decision::rollback && ! x.refused && all_alive( x) && all_results( x, { xa::ok, xa::read_only})) violation( "a commit is answered with an error without a reason", vkc::text( m.state));
         over( c.transaction);
         check_log();
      });
      p.on< tr::rollback::Reply>( [i]( auto& m)
      {
         auto k = answer( i, m, { Ask::resource_rollback}, "rollback " + vkc::text( m.state));
         auto& c = w.controls[ k];
         auto& x = w.transactions[ c.transaction];
         c.answered = true;
         c.answer = vkc::text( m.state);
         if( m.resource.value() != 500 + c.who) violation( "an answer about another resource");
         if( c.duplicate)
         {
            if( m.state != xa::read_only) violation( "a second connection gets another answer than read only", vkc::text( m.state));
            return;
         }
         if( x.decision == Decision::commit) violation( "a rollback is answered but the transaction was committed");
         bool fine = all_told( x) && all_results( x, { xa::ok, xa::read_only, xa::invalid_xid});
         if( ( m.state == xa::ok || m.state == xa::read_only) && ! fine) violation( "a rollback is answered with ok though a resource failed");
         over( c.transaction);
         check_log();
      });
      return p;
   }

   // ------------------------------------------------------------ when the manager waits

   void quiescent()
   {
      vk::evaluated( 2);
      check_log();
      if( w.outstanding.empty())
      {
         bool waits = false; // for a proxy that is to be started
         for( auto& i : w.instances) if( i.alive && ! i.ready && ! w.participants[ i.participant].external) waits = true;
         for( auto& c : w.controls)
            if( ! c.answered && ! waits && c.peer->alive) violation( "a request is not answered though nobody is left to wait for", std::string( name( c.ask)) + " T" + std::to_string( c.transaction));
         for( int t = 0; t < int( w.transactions.size()); ++t)
         {
            auto& x = w.transactions[ t];
            if( x.owner_dead && x.active && ! waits) over( t);
         }
      }
      for( auto& c : w.controls)
         if( c.answered && c.ask == Ask::commit && ! c.early && ! c.duplicate && w.transactions[ c.transaction].decision == Decision::commit)
            if( w.transactions[ c.transaction].parts.size() > 1) vk::cover( "committed without the answer prepared");
   }

   void observe()
   {
      w.observing = true;
      txm::active::Request m{ w.observer->handle};
      m.correlation = cc::strong::correlation::id{ vkc::uuid( 0x61, 1)};
      for( int t = 0; t < int( w.transactions.size()); ++t)
      {
         auto g = gtrid( t);
         m.gtrids.push_back( global( t));
      }
      vkc::to_self( m);
   }

   void observed()
   {
      vk::evaluated();
      if( ! w.actives) violation( "a question about active transactions is not answered");
      for( int t = 0; t < int( w.transactions.size()); ++t)
      {
         auto g = gtrid( t);
         bool active = std::any_of( w.actives->begin(), w.actives->end(), [&]( auto& x){ return same( x.range(), g);});
         auto& x = w.transactions[ t];
         if( active && x.ended && ! ( x.owner_dead_first && ! all_alive( x)) && std::none_of( x.parts.begin(), x.parts.end(), []( auto& p){ return p.result && *p.result != xa::ok && *p.result != xa::read_only;}))
            violation( "a transaction that is over is still there", "T" + std::to_string( t));
         if( ! active && x.active && ! x.ended && ! ( x.owner_dead && completed( x))) violation( "a transaction is gone before it has ended", "T" + std::to_string( t));
      }
      vk::finish( "observed");
   }

   // ------------------------------------------------------------ fingerprint

   std::string fingerprint()
   {
      std::ostringstream out;
      out << w.scenario << '\n' << dump();
      out << "bounds " << w.errors << ' ' << w.read_only << ' ' << w.deaths << ' ' << w.losses << ' ' << w.proxy_deaths << ' ' << w.batches << ' ' << w.duplicates << '\n';
      for( auto& p : w.participants) out << p.name << p.known << p.lost << ' ';
      for( auto& i : w.instances) out << i.ready << i.alive << ' ';
      out << "\ndisk";
      for( auto t : on_disk()) out << ' ' << t;
      out << '\n';
      if( sut_state)
      {
         auto insight = [&out]( auto& state)
         {
            auto part = [&out]( auto& value)
            {
               auto text = vkc::text( value);
               static const std::regex addresses{ "address: 0x[0-9a-f]+"}, created{ "created: [^,}]*"}, lookup{ "\\{ lookup: \\[.*?\\], entries"};
               text = std::regex_replace( text, addresses, "");
               text = std::regex_replace( text, created, "");
               out << text << '\n';
            };
            if constexpr( requires{ state.transactions;}) part( state.transactions);
            if constexpr( requires{ state.externals;}) part( state.externals);
            if constexpr( requires{ state.coordinate;})
            {
               auto text = vkc::text( state.coordinate);
               static const std::regex addresses{ "address: 0x[0-9a-f]+"};
               text = std::regex_replace( text, addresses, "");
               // the lookup is by the correlations of the entries
               for( std::size_t at = 0; ( at = text.find( "lookup: ", at)) != std::string::npos; )
               {
                  auto end = text.find( ", entries:", at);
                  if( end == std::string::npos) break;
                  text.erase( at, end - at);
               }
               out << text << '\n';
            }
            if constexpr( requires{ state.pending.requests;}) part( state.pending.requests);
            if constexpr( requires{ state.persistent.replies;}) part( state.persistent.replies);
            if constexpr( requires{ state.multiplex;}) part( state.multiplex);
            if constexpr( requires{ state.task;}) part( state.task);
            if constexpr( requires{ state.resources;})
               for( auto& r : state.resources)
               {
                  out << vkc::text( r.id);
                  if constexpr( requires{ r.instances;})
                     for( auto& i : r.instances)
                     {
                        if constexpr( requires{ i.process;}) out << ' ' << vkc::text( i.process);
                        if constexpr( requires{ i.state();}) out << ' ' << vkc::text( i.state());
                     }
               }
         };
         insight( *sut_state);
      }
      out << vk::kernel::state( vk::kernel::now());
      return vk::canonical( out.str());
   }

   // ------------------------------------------------------------ actions

   using Actions = std::vector< std::pair< std::string, std::function< void()>>>;

   bool requested( int t)
   {
      return std::any_of( w.controls.begin(), w.controls.end(), [t]( auto& c){ return c.transaction == t;});
   }

   const Control* asked_for( int t, Ask ask)
   {
      for( auto& c : w.controls) if( c.transaction == t && c.ask == ask && ! c.duplicate) return &c;
      return nullptr;
   }

   int add_control( int t, Ask ask, vkc::Peer* peer, int who)
   {
      Control c;
      c.ask = ask; c.transaction = t; c.peer = peer; c.who = who;
      w.controls.push_back( c);
      int i = w.controls.size() - 1;
      control_peer( i);
      return i;
   }

   void take_part( int t, int branch, int participant)
   {
      auto& x = w.transactions[ t];
      x.active = true;
      for( auto& p : x.parts) if( p.participant == participant && p.branch == branch) return;
      Part p; p.participant = participant; p.branch = branch;
      x.parts.push_back( p);
   }

   bool takes_part( int t, int branch, int participant)
   {
      for( auto& p : w.transactions[ t].parts) if( p.participant == participant && p.branch == branch) return true;
      return false;
   }

   void lose( int participant)
   {
      auto& e = w.participants[ participant];
      e.lost = true;
      for( auto& x : w.transactions)
         if( ! x.ended)
            for( auto& p : x.parts)
               if( p.participant == participant && ! p.result && ! ( p.vote && *p.vote == xa::read_only))
               {
                  p.lost = true;
                  if( ! p.vote || p.commits == 0) x.refused = true; // the manager may or may not have seen the vote
               }
      std::erase_if( w.outstanding, [&]( auto& o){ return w.instances[ o.instance].participant == participant;});
   }

   template< typename M>
   M control_message( int i)
   {
      auto& c = w.controls[ i];
      M m;
      m.process = c.peer->handle;
      m.correlation = cc::strong::correlation::id{ vkc::uuid( 0x60, i)};
      m.trid = w.transactions[ c.transaction].branches[ 0];
      return m;
   }

   Actions actions()
   {
      Actions result;
      auto add = [&result]( std::string name, std::function< void()> f){ result.emplace_back( std::move( name), std::move( f));};

      for( int i = 0; i < int( w.instances.size()); ++i)
         if( w.instances[ i].alive && ! w.instances[ i].ready && ! w.participants[ w.instances[ i].participant].external)
            add( w.instances[ i].peer->name + " gets ready", [i]{ ready( i);});

      for( int t = 0; t < int( w.transactions.size()); ++t)
      {
         auto& x = w.transactions[ t];
         auto T = " T" + std::to_string( t);
         if( x.superior && ! x.announced)
         {
            add( "a branch for" + T, [t]
            {
               auto& x = w.transactions[ t];
               x.announced = true;
               txm::inbound::branch::Request m{ w.superiors[ 0]->handle};
               m.correlation = cc::strong::correlation::id{ vkc::uuid( 0x62, t)};
               auto g = gtrid( t);
               m.gtrid = global( t);
               vkc::to_self( m);
            });
            continue;
         }
         if( x.branches.empty()) continue;

         if( ! requested( t) && ! x.owner_dead)
         {
            if( int( x.parts.size()) < w.max_involved)
            {
               int branches = std::min< int>( w.max_branches, x.parts.empty() ? 1 : x.branches.size() + 1);
               for( int b = 0; b < branches; ++b)
                  for( int p = 0; p < int( w.participants.size()); ++p)
                  {
                     if( takes_part( t, b, p) || w.participants[ p].lost) continue;
                     // symmetric ones in order
                     auto who = w.participants[ p].name;
                     add( who + " takes part in" + T + ( w.max_branches > 1 ? " branch " + std::to_string( b) : ""), [t, b, p]
                     {
                        auto& x = w.transactions[ t];
                        if( b == int( x.branches.size()))
                        {
                           auto g = gtrid( t);
                           cc::transaction::ID id{ g, vkc::uuid( 0x51 + b, t), x.superior ? cc::process::Handle{} : w.owners[ t]->handle};
                           if( x.superior) id.owner( w.server->handle);
                           x.branches.push_back( id);
                        }
                        take_part( t, b, p);
                        auto& participant = w.participants[ p];
                        if( participant.external)
                        {
                           tr::external::Involved m;
                           for( auto& i : w.instances) if( i.participant == p) m.process = i.peer->handle;
                           m.correlation = cc::strong::correlation::id{ vkc::uuid( 0x63, t)};
                           m.trid = x.branches[ b];
                           participant.known = true;
                           vkc::to_self( m);
                        }
                        else
                        {
                           tr::involved::Request m{ w.server->handle};
                           m.correlation = cc::strong::correlation::id{ vkc::uuid( 0x63, t)};
                           m.trid = x.branches[ b];
                           m.involved.push_back( participant.id);
                           m.reply = true;
                           vkc::to_self( m);
                        }
                     });
                  }
            }
            if( ! x.superior)
            {
               std::vector< int> extra{ -1};
               if( w.by_request)
                  for( int p = 0; p < int( w.participants.size()); ++p)
                     if( ! w.participants[ p].external && ! takes_part( t, 0, p) && int( x.parts.size()) < w.max_involved) extra.push_back( p);
               for( auto p : extra)
                  for( bool commit : { true, false})
                     add( std::string( commit ? "commit" : "rollback") + T + ( p >= 0 ? " with " + w.participants[ p].name : ""), [t, p, commit]
                     {
                        auto i = add_control( t, commit ? Ask::commit : Ask::rollback, w.owners[ t], 0);
                        if( p >= 0) take_part( t, 0, p);
                        auto send = [&]( auto m){ if( p >= 0) m.involved.push_back( w.participants[ p].id); vkc::to_self( m);};
                        if( commit) send( control_message< txm::commit::Request>( i));
                        else send( control_message< txm::rollback::Request>( i));
                     });
            }
         }

         auto superior = [&]( const std::string& text, Ask ask, int who, bool duplicate, bool one_phase = false)
         {
            add( text + T + ( who ? " by the second connection" : ""), [=]
            {
               auto i = add_control( t, ask, w.superiors[ who], who);
               w.controls[ i].duplicate = duplicate;
               if( duplicate) ++w.duplicates;
               auto send = [&]( auto m)
               {
                  m.resource = cc::strong::resource::id{ 500 + who};
                  if( one_phase) m.flags = cc::flag::xa::Flag::one_phase;
                  vkc::to_self( m);
               };
               if( ask == Ask::prepare) send( control_message< tr::prepare::Request>( i));
               else if( ask == Ask::resource_commit) send( control_message< tr::commit::Request>( i));
               else send( control_message< tr::rollback::Request>( i));
            });
         };
         if( x.superior && ! x.ended)
         {
            if( ! requested( t))
            {
               superior( "superior prepares", Ask::prepare, 0, false);
               superior( "superior commits in one phase", Ask::resource_commit, 0, false, true);
               superior( "superior rolls back", Ask::resource_rollback, 0, false);
            }
            else if( auto prepare = asked_for( t, Ask::prepare); prepare && prepare->answered && ! asked_for( t, Ask::resource_commit) && ! asked_for( t, Ask::resource_rollback))
            {
               if( x.prepared) superior( "superior commits", Ask::resource_commit, 0, false);
               superior( "superior rolls back", Ask::resource_rollback, 0, false);
            }
            if( requested( t) && w.duplicates < w.max_duplicates)
            {
               // another way between the domains, which is in the same phase
               auto open = [&]( Ask ask){ auto c = asked_for( t, ask); return c && ! c->answered;};
               if( open( Ask::prepare)) superior( "superior prepares", Ask::prepare, 1, true);
               if( open( Ask::resource_commit)) superior( "superior commits", Ask::resource_commit, 1, true);
               if( open( Ask::resource_rollback)) superior( "superior rolls back", Ask::resource_rollback, 1, true);
            }
         }

         if( ! x.superior && ! x.owner_dead && w.deaths < w.max_deaths && ( x.active || requested( t)) && ! x.ended)
            add( "the owner of" + T + " dies", [t]
            {
               auto& x = w.transactions[ t];
               ++w.deaths;
               x.owner_dead = true;
               if( ! requested( t)) x.owner_dead_first = true;
               w.owners[ t]->die();
               msg::event::process::Exit event;
               event.state.pid = w.owners[ t]->handle.pid;
               event.state.reason = decltype( event.state.reason)::core;
               vkc::to_self( event);
            });
      }

      for( std::size_t o = 0; o < w.outstanding.size(); ++o)
         for( auto code : codes( w.outstanding[ o]))
            add( w.instances[ w.outstanding[ o].instance].peer->name + " answers " + name( w.outstanding[ o].phase) + " T" + std::to_string( w.outstanding[ o].transaction) + ": " + vkc::text( code), [o, code]{ reply( o, code);});

      if( w.losses < w.max_losses)
         for( int i = 0; i < int( w.instances.size()); ++i)
         {
            auto p = w.instances[ i].participant;
            if( ! w.participants[ p].external || ! w.participants[ p].known || w.participants[ p].lost) continue;
            for( bool process : { true, false})
               add( w.instances[ i].peer->name + ( process ? " dies" : " closes its channel"), [i, p, process]
               {
                  ++w.losses;
                  auto handle = w.instances[ i].peer->handle;
                  w.instances[ i].peer->die();
                  lose( p);
                  if( process)
                  {
                     for( int k = 0; k < int( w.instances.size()); ++k)
                        if( k != i && w.instances[ k].peer->handle.pid == handle.pid && w.instances[ k].peer->alive) { w.instances[ k].peer->die(); lose( w.instances[ k].participant);}
                     msg::event::process::Exit event;
                     event.state.pid = handle.pid;
                     event.state.reason = decltype( event.state.reason)::core;
                     vkc::to_self( event);
                  }
                  else
                  {
                     msg::event::ipc::Destroyed event;
                     event.process = handle;
                     vkc::to_self( event);
                  }
               });
         }

      if( w.batches < w.max_batches && w.held == 0 && ! result.empty())
         add( "two at once", []{ ++w.batches; w.hold = true;});
      return result;
   }

   void perform()
   {
      auto possible = actions();
      if( possible.empty()) vk::finish( "nothing left");
      std::vector< std::string> names;
      for( auto& a : possible) names.push_back( a.first);
      auto choice = vk::choose( names, std::to_string( w.depth + 1));
      ++w.depth;
      vk::transition();
      possible[ choice].second();
   }

   void step()
   {
      if( w.observing) observed();
      if( std::exchange( w.steady, false) && sut_state)
      {
         auto persist = []( auto& state){ if constexpr( requires{ state.persistent.log.persist();}) state.persistent.log.persist();};
         persist( *sut_state);
      }
      if( ! w.slow)
      {
         bool any = false;
         for( int i = 0; i < int( w.instances.size()); ++i)
            if( w.instances[ i].alive && ! w.instances[ i].ready && ! w.participants[ w.instances[ i].participant].external) { ready( i); any = true;}
         if( any) return;
      }
      quiescent();

      vk::visit_or_finish( fingerprint(), w.limit - w.depth);
      if( vk::choose( 2, "") == 0) { observe(); return;}
      if( w.depth >= w.limit) vk::finish();

      perform();
      if( w.hold)
      {
         w.hold = false;
         ++w.held;
         perform();
         perform();
         --w.held;
         --w.depth;
      }
   }

   // ------------------------------------------------------------ scenarios

   struct Scenario { std::string name; std::function< void()> setup;};

   void local( const std::string& name, int instances = 1) { Participant p; p.name = name; p.instances = instances; w.participants.push_back( p);}
   void external( const std::string& name) { Participant p; p.name = name; p.external = true; w.participants.push_back( p);}
   void transactions( int owned, int superior)
   {
      for( int i = 0; i < owned + superior; ++i) { Transaction x; x.superior = i >= owned; w.transactions.push_back( x);}
   }

   std::vector< Scenario> scenarios( const std::string& property)
   {
      std::vector< Scenario> result;
      bool deep = vk::thorough();
      auto add = [&]( std::string name, std::function< void()> f, std::string properties = "T01 T02 T03")
      {
         if( deep || properties.find( property) != std::string::npos) result.push_back( { name, f});
      };

      add( "local resources", [=]
      {
         local( "R1"); local( "R2"); if( deep) local( "R3");
         transactions( 1, 0); w.by_request = true; w.max_involved = deep ? 3 : 2; w.max_deaths = 1; w.max_errors = 2; w.max_batches = 1; w.limit = deep ? 14 : 10;
      });
      add( "externals that get lost", [=]
      {
         local( "R1"); external( "E1"); external( "E2");
         transactions( 1, 0); w.max_involved = deep ? 3 : 2; w.max_losses = deep ? 2 : 1; w.max_errors = 1; w.max_batches = 1; w.limit = deep ? 12 : 10;
      }, "T01 T03");
      add( "superior domain", [=]
      {
         local( "R1"); external( "E1");
         transactions( 0, 1); w.max_involved = 2; w.max_branches = 2; w.max_losses = 1; w.max_errors = 1; w.max_duplicates = 1; w.max_batches = deep ? 1 : 0; w.limit = deep ? 14 : 11;
      }, "T01 T02 T03");
      add( "two transactions, one proxy", [=]
      {
         local( "R1"); if( deep) external( "E1"); else local( "R2");
         transactions( 2, 0); w.max_involved = 2; w.max_deaths = 1; w.max_errors = deep ? 1 : 0; w.max_read_only = deep ? 1 : 0; w.limit = deep ? 14 : 11;
      }, "T01 T02");
      add( "proxies that start slowly", [=]
      {
         local( "R1", 2); local( "R2"); w.slow = true;
         transactions( 1, 0); w.max_involved = 2; w.max_errors = 1; w.limit = deep ? 13 : 11;
      }, "T02 T03");
      add( "branches", [=]
      {
         local( "R1"); external( "E1");
         transactions( 1, 0); w.max_branches = deep ? 3 : 2; w.max_involved = 3; w.max_deaths = 1; w.max_losses = 1; w.max_errors = 1; w.max_read_only = 2; w.limit = deep ? 12 : 8;
      }, "T01");
      add( "answers at once", [=]
      {
         local( "R1"); external( "E1"); w.immediate = true; w.steady = false; w.max_branches = deep ? 2 : 1;
         transactions( 1, 1); w.max_involved = deep ? 3 : 2; w.max_losses = 1; w.max_errors = deep ? 2 : 1; w.max_read_only = 1; w.max_deaths = 1; w.max_batches = deep; w.limit = deep ? 9 : 7;
      }, "T02 T03");
      return result;
   }

   void body( const std::string& property)
   {
      auto list = scenarios( property);
      if( auto only = std::getenv( "VK_ONLY")) std::erase_if( list, [only]( auto& s){ return s.name.find( only) == std::string::npos;});
      std::vector< std::string> names;
      for( auto& s : list) names.push_back( s.name);
      auto chosen = vk::choose( names, "scenario");
      w.scenario = names[ chosen];
      list[ chosen].setup();

      vkfs::install();
      vkc::boot();

      auto& model = vkc::domain().model;
      model.transaction.log = database;
      for( auto& p : w.participants)
         if( ! p.external)
         {
            auto& r = model.transaction.resources.emplace_back();
            r.name = p.name; r.key = "db"; r.instances = p.instances;
         }
      auto& system = model.system.resources.emplace_back();
      system.key = "db"; system.server = "/nowhere/rm-proxy"; system.xa_struct_name = "db_xa";

      vk::kernel::on_spawn = []( auto& path, auto& arguments, auto&)
      {
         long id = 0;
         for( std::size_t i = 0; i + 1 < arguments.size(); ++i) if( arguments[ i] == "--id") id = std::stol( arguments[ i + 1]);
         int k = w.instances.size();
         Instance instance;
         // ids are given in the order of configuration
         std::vector< int> locals;
         for( int p = 0; p < int( w.participants.size()); ++p) if( ! w.participants[ p].external) locals.push_back( p);
         for( auto p : locals) if( w.participants[ p].id && w.participants[ p].id.value() == id) instance.participant = p;
         if( instance.participant < 0)
            for( auto p : locals) if( ! w.participants[ p].id) { w.participants[ p].id = cc::strong::resource::id{ id}; instance.participant = p; break;}
         if( instance.participant < 0) vk::broken( "unexpected resource " + std::to_string( id));
         instance.peer = &vkc::peer( w.participants[ instance.participant].name + "." + std::to_string( k), 0x21, k);
         w.instances.push_back( instance);
         connect( k);
         return int( instance.peer->handle.pid.value());
      };
      vk::kernel::on_wait = []( pid_t, int*, int) -> pid_t { return 0;};

      int number = 0;
      for( int p = 0; p < int( w.participants.size()); ++p)
         if( w.participants[ p].external)
         {
            Instance instance;
            instance.participant = p;
            instance.peer = &vkc::peer( w.participants[ p].name, 0x22, ++number);
            w.instances.push_back( instance);
            connect( w.instances.size() - 1);
         }
      if( w.pids) for( auto& i : w.instances) if( w.participants[ i.participant].external) i.peer->handle.pid = w.instances[ 0].peer->handle.pid;

      for( int t = 0; t < int( w.transactions.size()); ++t)
      {
         auto& x = w.transactions[ t];
         auto& o = vkc::peer( "owner" + std::to_string( t), 0x23, t);
         w.owners.push_back( &o);
         auto g = gtrid( t);
         if( ! x.superior) x.branches.push_back( cc::transaction::ID{ g, vkc::uuid( 0x51, t), o.handle});
      }
      for( int s = 0; s < 2; ++s)
      {
         auto& p = vkc::peer( "superior" + std::to_string( s), 0x24, s);
         w.superiors.push_back( &p);
         p.on< txm::inbound::branch::Reply>( []( auto& m)
         {
            auto t = transaction_by( m.trid);
            if( t < 0 || m.correlation != cc::strong::correlation::id{ vkc::uuid( 0x62, t)}) violation( "a branch of another transaction is given");
            auto& x = w.transactions[ t];
            if( ! x.branches.empty()) violation( "a request for a branch is answered more than once");
            x.branches.push_back( m.trid);
            x.active = true;
         });
      }
      auto& service = vkc::peer( "service-manager", 0x27, 1);
      service.other = []( auto&){};
      vkc::domain().singleton( cc::communication::instance::identity::service::manager, service.handle);
      w.server = &vkc::peer( "server", 0x25, 1);
      w.server->on< tr::involved::Reply>( []( auto&){});
      w.observer = &vkc::peer( "observer", 0x26, 1);
      w.observer->on< txm::active::Reply>( []( auto& m){ w.actives = m.gtrids;});

      vkfs::on_commit = []( auto&){ check_log();};
      vk::kernel::idle = []( auto&, auto&){ step();};

      const char* argv[] = { "/nowhere/casual-transaction-manager", nullptr};
      sut_main( 1, argv);
      violation( "the transaction manager ended");
   }
}

int main( int argc, char** argv)
{
   return vkc::main( argc, argv, {
      .rule = "from the initial state of each scenario, every sequence of actions (participants join, commit and rollback by owners, prepare, commit and rollback by a superior domain, each answer of each participant in each order, deaths of owners, losses of externals, two messages at once) up to the stated depth is applied to the real casual-transaction-manager; states are merged when the manager's state, the virtual kernel, the log file and the reference model agree",
      .assumptions = { "datagram delivery in order between processes, one message handled at a time (as in casual)", "sqlite runs on an in-memory file system: a crash is a crash of the process, what has been written to a file remains", "participants join a transaction before its end is asked for" },
      }, []( const std::string& property){ body( property);});
}
