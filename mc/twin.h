// what h_misc2.cpp does with its own interface
#pragma once
namespace other { bool reg(int k); bool reg_instance(int k); bool unreg(); bool has(); int get(); }
