#include "vkfs.h"

#include <algorithm>
#include <cstring>
#include <utility>
#include <sqlite3.h>

namespace vkfs
{
   std::function< void( const std::string&)> on_commit;

   namespace
   {
      long commit_count = 0;

      struct Shared
      {
         std::vector< std::unique_ptr< char[]>> regions;
         int users = 0;
      };

      std::map< std::string, Shared>& shared() { static auto& value = *new std::map< std::string, Shared>; return value;}

      struct File
      {
         sqlite3_file base;
         std::string* name;
         bool temporary;
         bool commit_pending;
         bool mapped;
      };

      File& file( sqlite3_file* f) { return *reinterpret_cast< File*>( f);}

      vk::bytes& content( File& f)
      {
         auto& c = files()[ *f.name];
         if( ! c) c = std::make_shared< vk::bytes>();
         return *c;
      }

      vk::bytes& writable( File& f)
      {
         auto& c = files()[ *f.name];
         if( ! c) c = std::make_shared< vk::bytes>();
         else if( c.use_count() > 1) c = std::make_shared< vk::bytes>( *c);
         return *c;
      }

      int x_close( sqlite3_file* f)
      {
         auto& self = file( f);
         if( self.temporary) files().erase( *self.name);
         delete self.name;
         return SQLITE_OK;
      }

      int x_read( sqlite3_file* f, void* target, int count, sqlite3_int64 offset)
      {
         auto& data = content( file( f));
         auto size = static_cast< sqlite3_int64>( data.size());
         auto available = std::max< sqlite3_int64>( 0, std::min< sqlite3_int64>( count, size - offset));
         if( available > 0) std::memcpy( target, data.data() + offset, available);
         if( available < count)
         {
            std::memset( static_cast< char*>( target) + available, 0, count - available);
            return SQLITE_IOERR_SHORT_READ;
         }
         return SQLITE_OK;
      }

      bool is_log( const std::string& name) { return name.size() > 4 && name.compare( name.size() - 4, 4, "-wal") == 0;}

      int x_write( sqlite3_file* f, const void* source, int count, sqlite3_int64 offset)
      {
         auto& self = file( f);
         auto& data = writable( self);
         if( static_cast< sqlite3_int64>( data.size()) < offset + count) data.resize( offset + count);
         std::memcpy( data.data() + offset, source, count);

         if( is_log( *self.name))
         {
            if( count == 24 && offset >= 32)
            {
               // a frame header, the last one of a transaction has the size of the database
               std::uint32_t size; std::memcpy( &size, static_cast< const char*>( source) + 4, 4);
               self.commit_pending = size != 0;
            }
            else if( self.commit_pending && count > 24)
            {
               self.commit_pending = false;
               ++commit_count;
               if( on_commit) on_commit( self.name->substr( 0, self.name->size() - 4));
            }
         }
         return SQLITE_OK;
      }

      int x_truncate( sqlite3_file* f, sqlite3_int64 size) { writable( file( f)).resize( size); return SQLITE_OK;}
      int x_sync( sqlite3_file*, int) { return SQLITE_OK;}
      int x_size( sqlite3_file* f, sqlite3_int64* size) { *size = content( file( f)).size(); return SQLITE_OK;}
      int x_lock( sqlite3_file*, int) { return SQLITE_OK;}
      int x_reserved( sqlite3_file*, int* result) { *result = 0; return SQLITE_OK;}
      int x_control( sqlite3_file*, int, void*) { return SQLITE_NOTFOUND;}
      int x_sector( sqlite3_file*) { return 4096;}
      int x_characteristics( sqlite3_file*) { return 0;}

      int x_shm_map( sqlite3_file* f, int region, int size, int extend, void volatile** result)
      {
         auto& self = file( f);
         auto& s = shared()[ *self.name];
         if( ! self.mapped) { self.mapped = true; ++s.users;}
         if( static_cast< int>( s.regions.size()) <= region)
         {
            if( ! extend) { *result = nullptr; return SQLITE_OK;}
            while( static_cast< int>( s.regions.size()) <= region)
            {
               s.regions.emplace_back( new char[ size]);
               std::memset( s.regions.back().get(), 0, size);
            }
         }
         *result = s.regions[ region].get();
         return SQLITE_OK;
      }
      int x_shm_lock( sqlite3_file*, int, int, int) { return SQLITE_OK;}
      void x_shm_barrier( sqlite3_file*) {}
      int x_shm_unmap( sqlite3_file* f, int)
      {
         auto& self = file( f);
         if( ! self.mapped) return SQLITE_OK;
         self.mapped = false;
         if( auto found = shared().find( *self.name); found != shared().end() && --found->second.users == 0)
            shared().erase( found);
         return SQLITE_OK;
      }

      const sqlite3_io_methods methods{ 2, x_close, x_read, x_write, x_truncate, x_sync, x_size, x_lock, x_lock, x_reserved, x_control,
         x_sector, x_characteristics, x_shm_map, x_shm_lock, x_shm_barrier, x_shm_unmap};

      int v_open( sqlite3_vfs*, const char* name, sqlite3_file* f, int flags, int* out)
      {
         static int temporary = 0;
         auto& self = file( f);
         std::memset( &self, 0, sizeof( self));
         std::string path = name ? name : "temporary-" + std::to_string( ++temporary);
         if( ! ( flags & SQLITE_OPEN_CREATE) && ! files().contains( path)) return SQLITE_CANTOPEN;
         self.base.pMethods = &methods;
         self.name = new std::string( path);
         self.temporary = ( flags & SQLITE_OPEN_DELETEONCLOSE) != 0;
         content( self);
         if( out) *out = flags;
         return SQLITE_OK;
      }
      int v_delete( sqlite3_vfs*, const char* name, int) { return files().erase( name) ? SQLITE_OK : SQLITE_IOERR_DELETE_NOENT;}
      int v_access( sqlite3_vfs*, const char* name, int, int* result) { *result = files().contains( name); return SQLITE_OK;}
      int v_full( sqlite3_vfs*, const char* name, int size, char* out) { std::snprintf( out, size, "%s", name); return SQLITE_OK;}
      int v_random( sqlite3_vfs*, int count, char* out)
      {
         static std::uint64_t seed = 88172645463325252ull;
         for( int i = 0; i < count; ++i) { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; out[ i] = seed;}
         return count;
      }
      int v_sleep( sqlite3_vfs*, int us) { vk::kernel::advance( us * 1000ll); return us;}
      int v_time64( sqlite3_vfs*, sqlite3_int64* out) { *out = 210866760000000ll + vk::kernel::now() / 1'000'000; return SQLITE_OK;}
      int v_time( sqlite3_vfs*, double* out) { sqlite3_int64 t; v_time64( nullptr, &t); *out = t / 86400000.0; return SQLITE_OK;}
      int v_error( sqlite3_vfs*, int, char*) { return 0;}
   }

   std::map< std::string, Content>& files() { static auto& value = *new std::map< std::string, Content>; return value;}

   void install()
   {
      static sqlite3_vfs vfs{};
      vfs.iVersion = 2;
      vfs.szOsFile = sizeof( File);
      vfs.mxPathname = 512;
      vfs.zName = "vkfs";
      vfs.xOpen = v_open; vfs.xDelete = v_delete; vfs.xAccess = v_access; vfs.xFullPathname = v_full;
      vfs.xRandomness = v_random; vfs.xSleep = v_sleep; vfs.xCurrentTime = v_time; vfs.xCurrentTimeInt64 = v_time64; vfs.xGetLastError = v_error;
      sqlite3_vfs_register( &vfs, 1);
   }

   Image image( const std::string& path)
   {
      Image result;
      if( auto found = files().find( path); found != files().end()) result.database = found->second;
      if( auto found = files().find( path + "-wal"); found != files().end()) result.log = found->second;
      return result;
   }

   long commits() { return commit_count;}

   void crash()
   {
      // abandoned handles keep pointers into the regions, hence those are leaked
      for( auto& [ name, s] : shared())
         for( auto& r : s.regions) r.release();
      shared().clear();
   }

   std::vector< Row> query( const Image& image, const std::string& sql)
   {
      const std::string name = "/vkfs/query";
      auto keep = std::exchange( on_commit, nullptr);
      auto count = commit_count;
      files()[ name] = image.database;
      if( image.log) files()[ name + "-wal"] = image.log;

      std::vector< Row> result;
      sqlite3* db = nullptr;
      if( sqlite3_open( name.c_str(), &db) != SQLITE_OK) vk::broken( "could not open the image");
      sqlite3_stmt* statement = nullptr;
      if( sqlite3_prepare_v2( db, sql.c_str(), -1, &statement, nullptr) == SQLITE_OK)
      {
         int code;
         while( ( code = sqlite3_step( statement)) == SQLITE_ROW)
         {
            Row row;
            for( int i = 0; i < sqlite3_column_count( statement); ++i)
            {
               if( sqlite3_column_type( statement, i) == SQLITE_BLOB)
               {
                  static const char* digits = "0123456789abcdef";
                  std::string text;
                  auto data = static_cast< const unsigned char*>( sqlite3_column_blob( statement, i));
                  for( int b = 0; b < sqlite3_column_bytes( statement, i); ++b) { text += digits[ data[ b] >> 4]; text += digits[ data[ b] & 15];}
                  row.push_back( text);
               }
               else
               {
                  auto text = reinterpret_cast< const char*>( sqlite3_column_text( statement, i));
                  row.emplace_back( text ? text : "");
               }
            }
            result.push_back( std::move( row));
         }
         if( code != SQLITE_DONE) result.push_back( { "error", sqlite3_errmsg( db)});
         sqlite3_finalize( statement);
      }
      else
         result.push_back( { "error", sqlite3_errmsg( db)});
      sqlite3_close( db);
      files().erase( name);
      files().erase( name + "-wal");
      on_commit = keep;
      commit_count = count;
      return result;
   }
}
