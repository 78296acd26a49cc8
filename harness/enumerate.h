//! In-process exhaustive enumeration: every sequence of choices of a deterministic body, depth first,
//! by running it again from the start.
#pragma once

#include "vk.h"

#include <functional>
#include <string>
#include <vector>

namespace vke
{
   //! The first `forks` choices are explored by processes of their own, side by side.
   struct Enumerate
   {
      Enumerate( int forks = 1) : forks{ forks} {}

      //! 0 <= result < n
      int operator () ( int n)
      {
         if( n <= 1) return 0;
         if( at < std::size_t( forks))
         {
            if( at == path.size())
            {
               auto chosen = vk::choose( n, "step");
               path.emplace_back( chosen, n);
            }
         }
         else if( at == path.size()) path.emplace_back( 0, n);
         if( path[ at].second != n) vk::broken( "the body is not deterministic");
         return path[ at++].first;
      }

      void run( const std::function< void()>& body)
      {
         while( true)
         {
            at = 0;
            body();
            if( ! vk::sequence()) return;
            while( path.size() > std::size_t( forks) && path.back().first + 1 == path.back().second) path.pop_back();
            if( path.size() <= std::size_t( forks)) return;
            ++path.back().first;
         }
      }

      int forks = 1;
      std::vector< std::pair< int, int>> path;
      std::size_t at = 0;
   };
}
