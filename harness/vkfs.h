//! An in-memory file system for sqlite (registered as its default): what a program has written can be
//! looked at as it is after each write, and a crashed program can be started again on it.
#pragma once

#include "vk.h"

#include <memory>

namespace vkfs
{
   using Content = std::shared_ptr< vk::bytes>;

   void install();

   //! all files. the content is replaced, never changed, after image() has handed it out
   std::map< std::string, Content>& files();

   //! a copy of what is on disk, for path (database) and its log
   struct Image { Content database, log;};
   Image image( const std::string& path);

   //! number of commits to any log so far
   long commits();
   //! called after each commit of a transaction (the write of its last frame). argument: path of the database
   extern std::function< void( const std::string&)> on_commit;

   //! the process is gone: open files, locks and shared memory vanish
   void crash();

   using Row = std::vector< std::string>;
   //! rows of a query against an image (blobs are given in hex). The image is not changed
   std::vector< Row> query( const Image& image, const std::string& sql);
}
