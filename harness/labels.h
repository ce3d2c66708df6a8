// 90 places which label an object: each is its own line
static void labelAt(int place, User *p)
{
	switch (place) {
	case 0: RN_MEMLOG(MMUser,p) break;
	case 1: RN_MEMLOG(MMUser,p) break;
	case 2: RN_MEMLOG(MMUser,p) break;
	case 3: RN_MEMLOG(MMUser,p) break;
	case 4: RN_MEMLOG(MMUser,p) break;
	case 5: RN_MEMLOG(MMUser,p) break;
	case 6: RN_MEMLOG(MMUser,p) break;
	case 7: RN_MEMLOG(MMUser,p) break;
	case 8: RN_MEMLOG(MMUser,p) break;
	case 9: RN_MEMLOG(MMUser,p) break;
	case 10: RN_MEMLOG(MMUser,p) break;
	case 11: RN_MEMLOG(MMUser,p) break;
	case 12: RN_MEMLOG(MMUser,p) break;
	case 13: RN_MEMLOG(MMUser,p) break;
	case 14: RN_MEMLOG(MMUser,p) break;
	case 15: RN_MEMLOG(MMUser,p) break;
	case 16: RN_MEMLOG(MMUser,p) break;
	case 17: RN_MEMLOG(MMUser,p) break;
	case 18: RN_MEMLOG(MMUser,p) break;
	case 19: RN_MEMLOG(MMUser,p) break;
	case 20: RN_MEMLOG(MMUser,p) break;
	case 21: RN_MEMLOG(MMUser,p) break;
	case 22: RN_MEMLOG(MMUser,p) break;
	case 23: RN_MEMLOG(MMUser,p) break;
	case 24: RN_MEMLOG(MMUser,p) break;
	case 25: RN_MEMLOG(MMUser,p) break;
	case 26: RN_MEMLOG(MMUser,p) break;
	case 27: RN_MEMLOG(MMUser,p) break;
	case 28: RN_MEMLOG(MMUser,p) break;
	case 29: RN_MEMLOG(MMUser,p) break;
	case 30: RN_MEMLOG(MMUser,p) break;
	case 31: RN_MEMLOG(MMUser,p) break;
	case 32: RN_MEMLOG(MMUser,p) break;
	case 33: RN_MEMLOG(MMUser,p) break;
	case 34: RN_MEMLOG(MMUser,p) break;
	case 35: RN_MEMLOG(MMUser,p) break;
	case 36: RN_MEMLOG(MMUser,p) break;
	case 37: RN_MEMLOG(MMUser,p) break;
	case 38: RN_MEMLOG(MMUser,p) break;
	case 39: RN_MEMLOG(MMUser,p) break;
	case 40: RN_MEMLOG(MMUser,p) break;
	case 41: RN_MEMLOG(MMUser,p) break;
	case 42: RN_MEMLOG(MMUser,p) break;
	case 43: RN_MEMLOG(MMUser,p) break;
	case 44: RN_MEMLOG(MMUser,p) break;
	case 45: RN_MEMLOG(MMUser,p) break;
	case 46: RN_MEMLOG(MMUser,p) break;
	case 47: RN_MEMLOG(MMUser,p) break;
	case 48: RN_MEMLOG(MMUser,p) break;
	case 49: RN_MEMLOG(MMUser,p) break;
	case 50: RN_MEMLOG(MMUser,p) break;
	case 51: RN_MEMLOG(MMUser,p) break;
	case 52: RN_MEMLOG(MMUser,p) break;
	case 53: RN_MEMLOG(MMUser,p) break;
	case 54: RN_MEMLOG(MMUser,p) break;
	case 55: RN_MEMLOG(MMUser,p) break;
	case 56: RN_MEMLOG(MMUser,p) break;
	case 57: RN_MEMLOG(MMUser,p) break;
	case 58: RN_MEMLOG(MMUser,p) break;
	case 59: RN_MEMLOG(MMUser,p) break;
	case 60: RN_MEMLOG(MMUser,p) break;
	case 61: RN_MEMLOG(MMUser,p) break;
	case 62: RN_MEMLOG(MMUser,p) break;
	case 63: RN_MEMLOG(MMUser,p) break;
	case 64: RN_MEMLOG(MMUser,p) break;
	case 65: RN_MEMLOG(MMUser,p) break;
	case 66: RN_MEMLOG(MMUser,p) break;
	case 67: RN_MEMLOG(MMUser,p) break;
	case 68: RN_MEMLOG(MMUser,p) break;
	case 69: RN_MEMLOG(MMUser,p) break;
	case 70: RN_MEMLOG(MMUser,p) break;
	case 71: RN_MEMLOG(MMUser,p) break;
	case 72: RN_MEMLOG(MMUser,p) break;
	case 73: RN_MEMLOG(MMUser,p) break;
	case 74: RN_MEMLOG(MMUser,p) break;
	case 75: RN_MEMLOG(MMUser,p) break;
	case 76: RN_MEMLOG(MMUser,p) break;
	case 77: RN_MEMLOG(MMUser,p) break;
	case 78: RN_MEMLOG(MMUser,p) break;
	case 79: RN_MEMLOG(MMUser,p) break;
	case 80: RN_MEMLOG(MMUser,p) break;
	case 81: RN_MEMLOG(MMUser,p) break;
	case 82: RN_MEMLOG(MMUser,p) break;
	case 83: RN_MEMLOG(MMUser,p) break;
	case 84: RN_MEMLOG(MMUser,p) break;
	case 85: RN_MEMLOG(MMUser,p) break;
	case 86: RN_MEMLOG(MMUser,p) break;
	case 87: RN_MEMLOG(MMUser,p) break;
	case 88: RN_MEMLOG(MMUser,p) break;
	case 89: RN_MEMLOG(MMUser,p) break;
	}
}
