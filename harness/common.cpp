#include "common.hpp"
namespace h
{
	long g_live = 0;
	void live_add(long n) noexcept
	{
		g_live += n;
	}
}
