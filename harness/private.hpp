// Access to a private member function, by an explicit instantiation (in which access is not checked).
#pragma once
template <auto P, typename Tag>
struct opened { friend constexpr auto open(Tag) { return P; } };
#define VH_PRIVATE(tag, member) struct tag { friend constexpr auto open(tag); }; template struct opened<&member, tag>
