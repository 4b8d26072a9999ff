# contracts shared by every property: external code that is assumed, never verified
