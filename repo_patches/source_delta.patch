From d3fad3d6ecada181f441d6c7b5bd4ad259c4e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 001/169] fix: allocate the requested capacity when growing an
 aligned Array

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index dea1df1..b48a761 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -947,7 +947,7 @@ void Array<T>::IncreaseCapacity(il::int_t r) {
     new_data = il::allocateArray<T>(r);
     new_shift = 0;
   } else {
-    new_data = il::allocateArray<T>(n, align_r_, align_mod_, il::io, new_shift);
+    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
   }
   if (data_) {
     if (il::isTrivial<T>::value) {
-- 
2.43.0


From c725128b4771b7a6ac5ad3dec12cd53b4b8a7444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 002/169] fix: Array::Set only assigns existing elements

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index b48a761..52d2bbf 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -660,7 +660,7 @@ T& Array<T>::operator[](il::int_t i) {
 
 template <typename T>
 void Array<T>::Set(const T& x) {
-  for (il::int_t i = 0; i < capacity_ - data_; ++i) {
+  for (il::int_t i = 0; i < size(); ++i) {
     data_[i] = x;
   }
 }
-- 
2.43.0


From 3049bac5b348bc5dc6eaaba777e9000a9d766f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 003/169] fix: construct new elements in Array copy assignment
 within capacity

---
 il/container/1d/Array.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 52d2bbf..6096718 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -585,12 +585,17 @@ Array<T>& Array<T>::operator=(const Array<T>& v) {
     if (il::isTrivial<T>::value) {
       memcpy(data_, v.data_, n * sizeof(T));
     } else {
-      for (il::int_t i = 0; i < n; ++i) {
-        data_[i] = v.data_[i];
-      }
-      for (il::int_t i = size() - 1; i >= n; --i) {
+      const il::int_t n_old = size();
+      for (il::int_t i = n_old - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
+      for (il::int_t i = 0; i < n; ++i) {
+        if (i < n_old) {
+          data_[i] = v.data_[i];
+        } else {
+          new (data_ + i) T(v.data_[i]);
+        }
+      }
     }
     size_ = data_ + n;
   }
-- 
2.43.0


From 4767c7a6757a68bba76d2f32773df52957be9622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 004/169] fix: do not read an argument living in the Array
 after its storage is released

---
 il/container/1d/Array.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 6096718..a7424f9 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -745,14 +745,15 @@ void Array<T>::Resize(il::int_t n, const T& x) {
     }
   } else {
     const il::int_t n_old = size();
+    const T x_copy = x;
     IncreaseCapacity(n);
     if (il::isTrivial<T>::value) {
       for (il::int_t i = n_old; i < n; ++i) {
-        data_[i] = x;
+        data_[i] = x_copy;
       }
     } else {
       for (il::int_t i = n_old; i < n; ++i) {
-        new (data_ + i) T{x};
+        new (data_ + i) T{x_copy};
       }
     }
   }
@@ -838,13 +839,12 @@ void Array<T>::Append(T&& x) {
     if (error) {
       il::abort();
     }
+    T x_copy = std::move(x);
     IncreaseCapacity(new_capacity);
+    new (size_) T(std::move(x_copy));
+  } else {
+    new (size_) T(std::move(x));
   }
-  //  if (il::isTrivial<T>::value) {
-  //    *size_ = std::move(x);
-  //  } else {
-  new (size_) T(std::move(x));
-  //  }
   ++size_;
 }
 
@@ -860,9 +860,12 @@ void Array<T>::Append(il::emplace_t, Args&&... args) {
     if (error) {
       il::abort();
     }
+    T x(std::forward<Args>(args)...);
     IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(std::forward<Args>(args)...);
+    new (size_) T(std::move(x));
+  } else {
+    new (size_) T(std::forward<Args>(args)...);
+  }
   ++size_;
 }
 
-- 
2.43.0


From 8ac093beaf20c03c967c1cc8a0d86481142fb072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 005/169] fix: SmallArray move assignment keeps the moved
 elements and empties the source

---
 il/container/1d/SmallArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index bc51f0a..d3ab9f4 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -405,7 +405,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       } else {
         for (il::int_t i = n - 1; i >= 0; --i) {
           new (data_ + i) T(std::move(A.data_[i]));
-          (data_ + i)->~T();
+          (A.data_ + i)->~T();
         }
       }
       size_ = data_ + n;
@@ -415,7 +415,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       size_ = A.size_;
       capacity_ = A.capacity_;
     }
-    data_ = reinterpret_cast<T*>(small_data_);
+    A.data_ = reinterpret_cast<T*>(A.small_data_);
     A.size_ = A.data_ + 0;
     A.capacity_ = A.data_ + small_size;
   }
-- 
2.43.0


From be53cc74e1ef8fa4219094a57fc51dcc468e7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 006/169] fix: SmallArray::Resize within capacity keeps the
 remaining elements alive

---
 il/container/1d/SmallArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index d3ab9f4..a514866 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -479,7 +479,7 @@ void SmallArray<T, small_size>::Resize(il::int_t n) {
       }
 #endif
     } else {
-      for (il::int_t i = size() - 1; i >= 0; --i) {
+      for (il::int_t i = size() - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
       for (il::int_t i = size(); i < n; ++i) {
-- 
2.43.0


From 0e86cec0418d2be479242c0cd2866871c99d7bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 007/169] fix: construct new elements in SmallArray copy
 assignment within capacity

---
 il/container/1d/SmallArray.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index a514866..98ee17b 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -367,13 +367,18 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       size_ = data_ + n;
       capacity_ = data_ + n;
     } else {
+      const il::int_t n_old = size();
       if (!il::isTrivial<T>::value) {
-        for (il::int_t i = size() - 1; i >= n; --i) {
+        for (il::int_t i = n_old - 1; i >= n; --i) {
           (data_ + i)->~T();
         }
       }
       for (il::int_t i = 0; i < n; ++i) {
-        data_[i] = A.data_[i];
+        if (i < n_old) {
+          data_[i] = A.data_[i];
+        } else {
+          new (data_ + i) T(A.data_[i]);
+        }
       }
       size_ = data_ + n;
     }
-- 
2.43.0


From 5f556d1db5c10cd9c3ab48658c11e5802a215aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 008/169] fix: do not read an argument living in the SmallArray
 after its storage is released

---
 il/container/1d/SmallArray.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index 98ee17b..3665e0c 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -555,9 +555,12 @@ void SmallArray<T, small_size>::Append(Args&&... args) {
     if (error) {
       il::abort();
     }
+    T x(args...);
     IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(args...);
+    new (size_) T(std::move(x));
+  } else {
+    new (size_) T(args...);
+  }
   ++size_;
 }
 
-- 
2.43.0


From 56ef6854ea61ba18e8b92a699f0a0af0056d9c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 009/169] fix: construct new elements in multi-dimensional copy
 assignment within capacity

---
 il/container/2d/Array2C.h | 14 +++++++++-----
 il/container/2d/Array2D.h | 14 +++++++++-----
 il/container/3d/Array3C.h | 18 +++++++++++-------
 il/container/3d/Array3D.h | 18 +++++++++++-------
 il/container/4d/Array4C.h | 25 ++++++++++++++-----------
 il/container/4d/Array4D.h | 25 ++++++++++++++-----------
 6 files changed, 68 insertions(+), 46 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index d00efa3..70d5802 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -705,16 +705,20 @@ Array2C<T>& Array2C<T>::operator=(const Array2C<T>& A) {
                  n1 * sizeof(T));
         }
       } else {
-        for (il::int_t i0 = 0; i0 < n0; ++i0) {
-          for (il::int_t i1 = 0; i1 < n1; ++i1) {
-            data_[i0 * capacity(1) + i1] = A(i0, i1);
-          }
-        }
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
           for (il::int_t i1 = size(1) - 1; i1 >= (i0 < n0 ? n1 : 0); --i1) {
             (data_ + i0 * capacity(1) + i1)->~T();
           }
         }
+        for (il::int_t i0 = 0; i0 < n0; ++i0) {
+          for (il::int_t i1 = 0; i1 < n1; ++i1) {
+            if (i0 < size(0) && i1 < size(1)) {
+              data_[i0 * capacity(1) + i1] = A(i0, i1);
+            } else {
+              new (data_ + i0 * capacity(1) + i1) T(A(i0, i1));
+            }
+          }
+        }
       }
       size_[0] = data_ + n0;
       size_[1] = data_ + n1;
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index a7a9b78..9bcbce4 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -753,16 +753,20 @@ Array2D<T>& Array2D<T>::operator=(const Array2D<T>& A) {
                  n0 * sizeof(T));
         }
       } else {
-        for (il::int_t i1 = 0; i1 < n1; ++i1) {
-          for (il::int_t i0 = 0; i0 < n0; ++i0) {
-            data_[i1 * capacity(0) + i0] = A(i0, i1);
-          }
-        }
         for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
           for (il::int_t i0 = size(0) - 1; i0 >= (i1 < n1 ? n0 : 0); --i0) {
             (data_ + i1 * capacity(0) + i0)->~T();
           }
         }
+        for (il::int_t i1 = 0; i1 < n1; ++i1) {
+          for (il::int_t i0 = 0; i0 < n0; ++i0) {
+            if (i0 < size(0) && i1 < size(1)) {
+              data_[i1 * capacity(0) + i0] = A(i0, i1);
+            } else {
+              new (data_ + i1 * capacity(0) + i0) T(A(i0, i1));
+            }
+          }
+        }
       }
       size_[0] = data_ + n0;
       size_[1] = data_ + n1;
diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 4545d0a..beb10c4 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -808,13 +808,6 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
           }
         }
       } else {
-        for (il::int_t i0 = 0; i0 < n0; ++i0) {
-          for (il::int_t i1 = 0; i1 < n1; ++i1) {
-            for (il::int_t i2 = 0; i2 < n2; ++i2) {
-              data_[(i0 * capacity(1) + i1) * capacity(2) + i2] = A(i0, i1, i2);
-            }
-          }
-        }
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
           for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
             for (il::int_t i2 = size(2) - 1;
@@ -823,6 +816,17 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
             }
           }
         }
+        for (il::int_t i0 = 0; i0 < n0; ++i0) {
+          for (il::int_t i1 = 0; i1 < n1; ++i1) {
+            for (il::int_t i2 = 0; i2 < n2; ++i2) {
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                data_[(i0 * capacity(1) + i1) * capacity(2) + i2] = A(i0, i1, i2);
+              } else {
+                new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2) T(A(i0, i1, i2));
+              }
+            }
+          }
+        }
       }
       size_[0] = data_ + n0;
       size_[1] = data_ + n1;
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index c7fddc9..081dc52 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -808,13 +808,6 @@ Array3D<T>& Array3D<T>::operator=(const Array3D<T>& A) {
           }
         }
       } else {
-        for (il::int_t i2 = 0; i2 < n2; ++i2) {
-          for (il::int_t i1 = 0; i1 < n1; ++i1) {
-            for (il::int_t i0 = 0; i0 < n0; ++i0) {
-              data_[(i2 * capacity(1) + i1) * capacity(0) + i0] = A(i0, i1, i2);
-            }
-          }
-        }
         for (il::int_t i2 = size(2) - 1; i2 >= 0; --i2) {
           for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
             for (il::int_t i0 = size(0) - 1;
@@ -823,6 +816,17 @@ Array3D<T>& Array3D<T>::operator=(const Array3D<T>& A) {
             }
           }
         }
+        for (il::int_t i2 = 0; i2 < n2; ++i2) {
+          for (il::int_t i1 = 0; i1 < n1; ++i1) {
+            for (il::int_t i0 = 0; i0 < n0; ++i0) {
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                data_[(i2 * capacity(1) + i1) * capacity(0) + i0] = A(i0, i1, i2);
+              } else {
+                new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0) T(A(i0, i1, i2));
+              }
+            }
+          }
+        }
       }
       size_[0] = data_ + n0;
       size_[1] = data_ + n1;
diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index 769beae..c4998db 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -550,17 +550,6 @@ Array4C<T>& Array4C<T>::operator=(const Array4C<T>& A) {
           }
         }
       } else {
-        for (il::int_t i0 = 0; i0 < n0; ++i0) {
-          for (il::int_t i1 = 0; i1 < n1; ++i1) {
-            for (il::int_t i2 = 0; i2 < n2; ++i2) {
-              for (il::int_t i3 = 0; i3 < n3; ++i3) {
-                data_[((i0 * capacity(1) + i1) * capacity(2) + i2) *
-                          capacity(3) +
-                      i0] = A(i0, i1, i2, i3);
-              }
-            }
-          }
-        }
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
           for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
             for (il::int_t i2 = size(2) - 1; i2 >= 0; --i2) {
@@ -575,6 +564,20 @@ Array4C<T>& Array4C<T>::operator=(const Array4C<T>& A) {
             }
           }
         }
+        for (il::int_t i0 = 0; i0 < n0; ++i0) {
+          for (il::int_t i1 = 0; i1 < n1; ++i1) {
+            for (il::int_t i2 = 0; i2 < n2; ++i2) {
+              for (il::int_t i3 = 0; i3 < n3; ++i3) {
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) &&
+                    i3 < size(3)) {
+                  data_[((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) + i0] = A(i0, i1, i2, i3);
+                } else {
+                  new (data_ + ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) + i0) T(A(i0, i1, i2, i3));
+                }
+              }
+            }
+          }
+        }
       }
       size_[0] = data_ + n0;
       size_[1] = data_ + n1;
diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index 908cdaf..66dfa24 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -550,17 +550,6 @@ Array4D<T>& Array4D<T>::operator=(const Array4D<T>& A) {
           }
         }
       } else {
-        for (il::int_t i3 = 0; i3 < n3; ++i3) {
-          for (il::int_t i2 = 0; i2 < n2; ++i2) {
-            for (il::int_t i1 = 0; i1 < n1; ++i1) {
-              for (il::int_t i0 = 0; i0 < n0; ++i0) {
-                data_[((i3 * capacity(2) + i2) * capacity(1) + i1) *
-                          capacity(0) +
-                      i0] = A(i0, i1, i2, i3);
-              }
-            }
-          }
-        }
         for (il::int_t i3 = size(3) - 1; i3 >= 0; --i3) {
           for (il::int_t i2 = size(2) - 1; i2 >= 0; --i2) {
             for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
@@ -575,6 +564,20 @@ Array4D<T>& Array4D<T>::operator=(const Array4D<T>& A) {
             }
           }
         }
+        for (il::int_t i3 = 0; i3 < n3; ++i3) {
+          for (il::int_t i2 = 0; i2 < n2; ++i2) {
+            for (il::int_t i1 = 0; i1 < n1; ++i1) {
+              for (il::int_t i0 = 0; i0 < n0; ++i0) {
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) &&
+                    i3 < size(3)) {
+                  data_[((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) + i0] = A(i0, i1, i2, i3);
+                } else {
+                  new (data_ + ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) + i0) T(A(i0, i1, i2, i3));
+                }
+              }
+            }
+          }
+        }
       }
       size_[0] = data_ + n0;
       size_[1] = data_ + n1;
-- 
2.43.0


From b90dd7a63836cf406b5adcfcb79deb2e57d72ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 010/169] fix: an aligned empty multi-dimensional array
 satisfies its invariant

---
 il/container/2d/Array2C.h | 3 ---
 il/container/2d/Array2D.h | 3 ---
 il/container/3d/Array3C.h | 3 ---
 il/container/3d/Array3D.h | 3 ---
 4 files changed, 12 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 70d5802..7e6f99a 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -1090,9 +1090,6 @@ bool Array2C<T>::invariance() const {
     ans = ans && (size_[1] == nullptr);
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
-    ans = ans && (align_mod_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (alignment_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 9bcbce4..1322914 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1371,9 +1371,6 @@ bool Array2D<T>::invariance() const {
     ans = ans && (size_[1] == nullptr);
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index beb10c4..ed25c9f 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -1189,9 +1189,6 @@ bool Array3C<T>::invariance() const {
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
     ans = ans && (capacity_[2] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index 081dc52..8ae2682 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -1191,9 +1191,6 @@ bool Array3D<T>::invariance() const {
     ans = ans && (capacity_[0] == nullptr);
     ans = ans && (capacity_[1] == nullptr);
     ans = ans && (capacity_[2] == nullptr);
-    ans = ans && (alignment_ == 0);
-    ans = ans && (align_r_ == 0);
-    ans = ans && (align_mod_ == 0);
     ans = ans && (shift_ == 0);
   } else {
     ans = ans && (size_[0] != nullptr);
-- 
2.43.0


From 4550f76be9f1e9dabd23e0dd8908b68f341c78aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 011/169] fix: Array2C copy constructor uses the alignment of
 the source

---
 il/container/2d/Array2C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 7e6f99a..222d57e 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -548,7 +548,7 @@ Array2C<T>::Array2C(const Array2C<T>& A) {
     if (il::isTrivial<T>::value && A.align_mod_ != 0) {
       r0 = n0;
       const il::int_t nb_lanes = static_cast<il::int_t>(
-          static_cast<std::size_t>(alignment_) / alignof(T));
+          static_cast<std::size_t>(A.alignment_) / alignof(T));
       bool error = false;
       r1 = il::safeUpperRound(n1, nb_lanes, il::io, error);
       if (error) {
-- 
2.43.0


From 872c6181555bc655f4dd80e5f9172561796b4637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:21 +0000
Subject: [PATCH 012/169] fix: column views of Array2D use the stride

---
 il/container/2d/Array2D.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 1322914..92988c3 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1274,7 +1274,7 @@ il::Array2DView<T> Array2D<T>::view() const {
 
 template <typename T>
 il::ArrayView<T> Array2D<T>::view(il::Range range0, il::int_t i1) const {
-  return il::ArrayView<T>{data() + i1 * size(0) + range0.begin,
+  return il::ArrayView<T>{data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
@@ -1325,7 +1325,7 @@ il::Array2DEdit<T> Array2D<T>::Edit(il::Range range0, il::Range range1) {
 
 template <typename T>
 il::ArrayEdit<T> Array2D<T>::Edit(il::Range range0, il::int_t i1) {
-  return il::ArrayEdit<T>{data() + i1 * stride(1) + range0.begin,
+  return il::ArrayEdit<T>{Data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
-- 
2.43.0


From dfdfe407c4a7e317fa2168ee46be4a2358395426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 013/169] fix: sub-blocks of Array2CEdit use the row stride

---
 il/container/2d/Array2CView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index ac65e44..f58d2b6 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -235,8 +235,8 @@ Array2CEdit<T> Array2CEdit<T>::Edit(il::Range r0, il::Range r1) {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(r1.end) <=
                    static_cast<std::size_t>(this->size(1)));
 
-  const il::int_t my_stride = this->stride(1);
-  return il::Array2CEdit<T>{Data() + r0.begin + r1.begin * my_stride,
+  const il::int_t my_stride = this->stride(0);
+  return il::Array2CEdit<T>{Data() + r0.begin * my_stride + r1.begin,
                             r0.end - r0.begin,
                             r1.end - r1.begin,
                             my_stride,
-- 
2.43.0


From f3313a21dc942dfb6f1f30ef198781fbc91d87af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 014/169] fix: Array4C copy assignment indexes the last
 dimension

---
 il/container/4d/Array4C.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index c4998db..f56bb59 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -570,9 +570,13 @@ Array4C<T>& Array4C<T>::operator=(const Array4C<T>& A) {
               for (il::int_t i3 = 0; i3 < n3; ++i3) {
                 if (i0 < size(0) && i1 < size(1) && i2 < size(2) &&
                     i3 < size(3)) {
-                  data_[((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) + i0] = A(i0, i1, i2, i3);
+                  data_[((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) +
+                        i3] = A(i0, i1, i2, i3);
                 } else {
-                  new (data_ + ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) + i0) T(A(i0, i1, i2, i3));
+                  new (data_ +
+                       ((i0 * capacity(1) + i1) * capacity(2) + i2) *
+                           capacity(3) +
+                       i3) T(A(i0, i1, i2, i3));
                 }
               }
             }
-- 
2.43.0


From f164c0e317ee50d9f452ef7cbb36ef2af682da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 015/169] fix: Array3C::Resize fills default values over the
 rows only

---
 il/container/3d/Array3C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index ed25c9f..41263d0 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -1039,7 +1039,7 @@ void Array3C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
   } else {
     if (il::isTrivial<T>::value) {
 #ifdef IL_DEFAULT_VALUE
-      for (il::int_t i0 = 0; i0 < n2; ++i0) {
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0;
                i2 < n2; ++i2) {
-- 
2.43.0


From 544bd33227d2b0e59b236d7ffd64dcdc7fabc313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:14 +0000
Subject: [PATCH 016/169] fix: Array3C copy assignment destroys the right
 trailing elements

---
 il/container/3d/Array3C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 41263d0..b76320c 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -811,7 +811,7 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
           for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
             for (il::int_t i2 = size(2) - 1;
-                 i2 >= (i0 < n0 && i1 < n1 ? n0 : 0); --i2) {
+                 i2 >= (i0 < n0 && i1 < n1 ? n2 : 0); --i2) {
               (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2)->~T();
             }
           }
-- 
2.43.0


From 0cd12e31f312ae618f6132239a39e4ff74cc7889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 017/169] fix: aligned Array3D and Array3C are filled with the
 given value in every build

---
 il/container/3d/Array3C.h | 2 --
 il/container/3d/Array3D.h | 2 --
 2 files changed, 4 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index b76320c..ade7af2 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -489,7 +489,6 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
     il::int_t shift;
     data_ = il::allocateArray<T>(r, align_r, align_mod, il::io, shift);
     shift_ = static_cast<short>(shift);
-#ifdef IL_DEFAULT_VALUE
     for (il::int_t i0 = 0; i0 < n0; ++i0) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i2 = 0; i2 < n2; ++i2) {
@@ -497,7 +496,6 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
         }
       }
     }
-#endif
   } else {
     data_ = nullptr;
     shift_ = 0;
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index 8ae2682..ec45bca 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -485,7 +485,6 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
     il::int_t shift;
     data_ = il::allocateArray<T>(r, align_r, align_mod, il::io, shift);
     shift_ = static_cast<short>(shift);
-#ifdef IL_DEFAULT_VALUE
     for (il::int_t i2 = 0; i2 < n2; ++i2) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
@@ -493,7 +492,6 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
         }
       }
     }
-#endif
   } else {
     data_ = nullptr;
     shift_ = 0;
-- 
2.43.0


From 3fa2b544cc13716cc1393e2e64a6df0bfa3e6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:40 +0000
Subject: [PATCH 018/169] fix: copy assignment of triangular matrices copies
 and destroys every packed element

---
 il/container/2d/LowerArray2D.h | 13 +++++++++----
 il/container/2d/UpperArray2D.h | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/il/container/2d/LowerArray2D.h b/il/container/2d/LowerArray2D.h
index 1f5a114..6b0e3ae 100644
--- a/il/container/2d/LowerArray2D.h
+++ b/il/container/2d/LowerArray2D.h
@@ -158,7 +158,8 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -176,12 +177,16 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k = 0; k < nb_elements; ++k) {
-          data_[k] = A.data_[k];
+          if (k < nb_elements_old) {
+            data_[k] = A.data_[k];
+          } else {
+            new (data_ + k) T{A.data_[k]};
+          }
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
diff --git a/il/container/2d/UpperArray2D.h b/il/container/2d/UpperArray2D.h
index 912d669..d84b89c 100644
--- a/il/container/2d/UpperArray2D.h
+++ b/il/container/2d/UpperArray2D.h
@@ -158,7 +158,8 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -176,12 +177,16 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k = 0; k < nb_elements; ++k) {
-          data_[k] = A.data_[k];
+          if (k < nb_elements_old) {
+            data_[k] = A.data_[k];
+          } else {
+            new (data_ + k) T{A.data_[k]};
+          }
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
-- 
2.43.0


From 0cf8cd88f5dc1059a4504e6d584ae8d9286fc55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 019/169] fix: Array2D column views check their range and
 column

---
 il/container/2d/Array2D.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 92988c3..7e5331f 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1274,6 +1274,13 @@ il::Array2DView<T> Array2D<T>::view() const {
 
 template <typename T>
 il::ArrayView<T> Array2D<T>::view(il::Range range0, il::int_t i1) const {
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
   return il::ArrayView<T>{data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
@@ -1325,6 +1332,13 @@ il::Array2DEdit<T> Array2D<T>::Edit(il::Range range0, il::Range range1) {
 
 template <typename T>
 il::ArrayEdit<T> Array2D<T>::Edit(il::Range range0, il::int_t i1) {
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
   return il::ArrayEdit<T>{Data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
-- 
2.43.0


From 187dc195dab0d0b332472553c2e14d0039eda79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 020/169] fix: SparseMatrixCSR element access rejects an entry
 before its row

---
 il/container/2d/SparseMatrixCSR.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 62243ac..8bac32a 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -252,16 +252,16 @@ T &SparseMatrixCSR<Index, T>::operator[](il::int_t k) {
 template <typename Index, typename T>
 T const &SparseMatrixCSR<Index, T>::operator()(il::int_t i, il::int_t k) const {
   IL_EXPECT_FAST(static_cast<std::size_t>(i) < static_cast<std::size_t>(n0_));
-  IL_EXPECT_FAST(static_cast<std::size_t>(row_[i] + k) <
-                 static_cast<std::size_t>(row_[i + 1]));
+  IL_EXPECT_FAST(static_cast<std::size_t>(k) <
+                 static_cast<std::size_t>(row_[i + 1] - row_[i]));
   return element_[row_[i] + k];
 }
 
 template <typename Index, typename T>
 T &SparseMatrixCSR<Index, T>::operator()(il::int_t i, il::int_t k) {
   IL_EXPECT_FAST(static_cast<std::size_t>(i) < static_cast<std::size_t>(n0_));
-  IL_EXPECT_FAST(static_cast<std::size_t>(row_[i] + k) <
-                 static_cast<std::size_t>(row_[i + 1]));
+  IL_EXPECT_FAST(static_cast<std::size_t>(k) <
+                 static_cast<std::size_t>(row_[i + 1] - row_[i]));
   return element_[row_[i] + k];
 }
 
-- 
2.43.0


From 19b69a7e0d1d4e0e57bb2c80799f347ac41452ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 021/169] fix: isRune excludes every surrogate

---
 il/container/string/String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 38fff8c..c552843 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -233,11 +233,11 @@ class StringView {
 
 inline bool isRune(int rune) {
   const unsigned int code_point_max = 0x0010FFFFu;
-  const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int surrogate_min = 0x0000D800u;
+  const unsigned int surrogate_max = 0x0000DFFFu;
   const unsigned int urune = static_cast<unsigned int>(rune);
   return urune <= code_point_max &&
-         (urune < lead_surrogate_min || urune > lead_surrogate_max);
+         (urune < surrogate_min || urune > surrogate_max);
 }
 
 inline bool isAscii(const char* s, il::int_t n) {
-- 
2.43.0


From 8b43b22b46de024d2ac3fe4aaa98d9b73ec4467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 022/169] fix: construct an appended element in the new storage
 before the Array releases the old one

---
 il/container/1d/Array.h | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index a7424f9..23c58d2 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -265,6 +265,14 @@ class Array {
    */
   void IncreaseCapacity(il::int_t r);
 
+  /* \brief Used internally to allocate storage for r elements
+   */
+  T* NewStorage(il::int_t r, il::io_t, il::int_t& new_shift) const;
+
+  /* \brief Used internally to move the elements to a new storage
+   */
+  void MoveToStorage(T* new_data, il::int_t r, il::int_t new_shift);
+
   /* \brief Used internally in debug mode to check the invariance of the object
    */
   bool invariance() const;
@@ -839,9 +847,10 @@ void Array<T>::Append(T&& x) {
     if (error) {
       il::abort();
     }
-    T x_copy = std::move(x);
-    IncreaseCapacity(new_capacity);
-    new (size_) T(std::move(x_copy));
+    il::int_t new_shift;
+    T* new_data = NewStorage(new_capacity, il::io, new_shift);
+    new (new_data + n) T(std::move(x));
+    MoveToStorage(new_data, new_capacity, new_shift);
   } else {
     new (size_) T(std::move(x));
   }
@@ -860,9 +869,10 @@ void Array<T>::Append(il::emplace_t, Args&&... args) {
     if (error) {
       il::abort();
     }
-    T x(std::forward<Args>(args)...);
-    IncreaseCapacity(new_capacity);
-    new (size_) T(std::move(x));
+    il::int_t new_shift;
+    T* new_data = NewStorage(new_capacity, il::io, new_shift);
+    new (new_data + n) T(std::forward<Args>(args)...);
+    MoveToStorage(new_data, new_capacity, new_shift);
   } else {
     new (size_) T(std::forward<Args>(args)...);
   }
@@ -948,15 +958,26 @@ template <typename T>
 void Array<T>::IncreaseCapacity(il::int_t r) {
   IL_EXPECT_FAST(capacity() < r);
 
-  const il::int_t n = size();
-  T* new_data;
   il::int_t new_shift;
+  T* new_data = NewStorage(r, il::io, new_shift);
+  MoveToStorage(new_data, r, new_shift);
+}
+
+template <typename T>
+T* Array<T>::NewStorage(il::int_t r, il::io_t, il::int_t& new_shift) const {
+  T* new_data;
   if (alignment_ == 0) {
     new_data = il::allocateArray<T>(r);
     new_shift = 0;
   } else {
     new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
   }
+  return new_data;
+}
+
+template <typename T>
+void Array<T>::MoveToStorage(T* new_data, il::int_t r, il::int_t new_shift) {
+  const il::int_t n = size();
   if (data_) {
     if (il::isTrivial<T>::value) {
       memcpy(new_data, data_, n * sizeof(T));
-- 
2.43.0


From 3bedb845c99f84528301a5f5a2fe63592355184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 023/169] fix: moving from a heap String of small size takes
 over its storage

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index c552843..812230c 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -362,7 +362,7 @@ inline String::String(const String& s) : String{s.type(), s.data(), s.size()} {}
 inline String::String(String&& s) {
   const il::int_t size = s.size();
   const il::StringType type = s.type();
-  if (size <= max_small_size_) {
+  if (s.isSmall()) {
     std::memcpy(small_, s.asCString(), size + 1);
     setSmall(type, size);
   } else {
-- 
2.43.0


From 000eccd46320a477840372d8ac0f3ed348ae69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 024/169] fix: self-assignment of a heap String does not read
 released storage

---
 il/container/string/String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 812230c..e2467c8 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -404,6 +404,9 @@ inline String& String::operator=(const char (&data)[m]) {
 }
 
 inline String& String::operator=(const String& s) {
+  if (this == &s) {
+    return *this;
+  }
   const il::int_t size = s.size();
   const il::StringType type = s.type();
   if (size <= max_small_size_) {
-- 
2.43.0


From a14fe2ac0e792cc736c1294dad9bd2b19563948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 025/169] fix: String move assignment releases the storage it
 replaces

---
 il/container/string/String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index e2467c8..430993a 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -437,10 +437,10 @@ inline String& String::operator=(String&& s) {
   if (this != &s) {
     const il::int_t size = s.size();
     const il::StringType type = s.type();
+    if (!isSmall()) {
+      il::deallocate(large_.data);
+    }
     if (size <= max_small_size_) {
-      if (!isSmall()) {
-        il::deallocate(large_.data);
-      }
       std::memcpy(small_, s.data(), size + 1);
       setSmall(type, size);
     } else {
-- 
2.43.0


From a6fed39dd97455864d5be465e17f38dae63d78ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 026/169] fix: a String with reserved storage keeps it when its
 size stays small

---
 il/container/string/String.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 430993a..2584dd9 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1060,10 +1060,7 @@ inline void String::Grow(il::unsafe_t, il::int_t n_to_copy, il::int_t n) {
   const bool old_is_small = isSmall();
   char* old_data = Data();
   const il::int_t old_capacity = capacity();
-  if (n <= max_small_size_) {
-    if (!old_is_small) {
-      std::memcpy(small_, old_data, n_to_copy);
-    }
+  if (old_is_small && n <= max_small_size_) {
     setSmall(il::StringType::Byte, n);
   } else if (n <= old_capacity) {
     setLarge(il::StringType::Byte, n, old_capacity);
-- 
2.43.0


From 3d8a6c81579c3cc2c94edd90df13ff9ab0db166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 027/169] fix: appending n copies of a rune reserves and
 records n of them

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 2584dd9..bf6614a 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -609,7 +609,7 @@ inline void String::Append(il::int_t n, int rune) {
       p[old_n + k] = static_cast<char>(rune);
     }
     p[old_n + n] = '\0';
-    SetInvariant(il::unsafe, t, old_n + 1);
+    SetInvariant(il::unsafe, t, old_n + n);
   } else if (urune < 0x00000800u) {
     Grow(il::unsafe, old_n, old_n + 2 * n);
     char* p = Data();
@@ -622,7 +622,7 @@ inline void String::Append(il::int_t n, int rune) {
     SetInvariant(il::unsafe, il::joinType(t, il::StringType::Utf8),
                  old_n + 2 * n);
   } else if (urune < 0x00010000u) {
-    Grow(il::unsafe, old_n, old_n + 3);
+    Grow(il::unsafe, old_n, old_n + 3 * n);
     char* p = Data();
     for (il::int_t k = 0; k < n; ++k) {
       p[old_n + 3 * k] = static_cast<char>((urune >> 12) | 0x000000E0u);
-- 
2.43.0


From 22ae8fcb3b6068b5bb4566ed2b7c1076e82a79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 028/169] fix: substring and subview of a heap String use its
 storage

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index bf6614a..d8dc7ca 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -923,7 +923,7 @@ inline il::String String::substring(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::String{type(), small_ + i0, i1 - i0};
+  return il::String{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
@@ -937,7 +937,7 @@ inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::StringView{type(), small_ + i0, i1 - i0};
+  return il::StringView{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::view() const {
-- 
2.43.0


From 80ca22b7006bbb6e56db3cd4218c03fa57a80c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 029/169] fix: String::endsWith looks at the last character for
 the one given

---
 il/container/string/String.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index d8dc7ca..e6c9b2f 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -997,12 +997,7 @@ inline bool String::endsWith(char c) const {
   if (n == 0) {
     return false;
   }
-  const char* s = data();
-  if (*s == 'c') {
-    return true;
-  } else {
-    return false;
-  }
+  return data()[n - 1] == c;
 }
 
 inline const char* String::asCString() const {
-- 
2.43.0


From 1d53613e4d569ddece2158e05cdf5966bc255d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 030/169] fix: String::isEqual compares the whole string

---
 il/container/string/String.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index e6c9b2f..756896b 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1005,20 +1005,15 @@ inline const char* String::asCString() const {
 }
 
 inline bool String::isEqual(const char* s) const {
-  bool ans = true;
-  const char* p = data();
-  il::int_t i = 0;
-  while (ans && s[i] != '\0') {
-    if (p[i] != s[i]) {
-      ans = false;
-    }
-    ++i;
+  il::int_t n = 0;
+  while (s[n] != '\0') {
+    ++n;
   }
-  return ans;
+  return isEqual(s, n);
 }
 
 inline bool String::isEqual(const char* s, il::int_t n) const {
-  bool ans = true;
+  bool ans = (n == size());
   const char* p = data();
   il::int_t i = 0;
   while (ans && i < n) {
-- 
2.43.0


From 619a9456148d6c4af3f7e061a4f4095d159db5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 031/169] fix: comparing a StringView with a C string compares
 the whole text

---
 il/container/string/String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 756896b..4068891 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1417,13 +1417,13 @@ inline StringView StringView::subview(il::int_t i0, il::int_t i1) const {
 inline bool StringView::operator==(const char* string) const {
   bool match = true;
   il::int_t k = 0;
-  while (match && k < size() && string[k] != '\0') {
-    if (data_[k] != string[k]) {
+  while (match && k < size()) {
+    if (string[k] == '\0' || data_[k] != string[k]) {
       match = false;
     }
     ++k;
   }
-  return match;
+  return match && string[k] == '\0';
 }
 
 inline const char* StringView::asCString() const {
-- 
2.43.0


From 2e14753e55bb53d3c81fb0d8f6aad4b9bea4d961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 032/169] fix: streaming a StringView writes the bytes it
 denotes

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 4068891..0528bcf 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1592,11 +1592,11 @@ inline il::String toString(const char* s) {
 }
 
 inline std::ostream& operator<<(std::ostream& os, const String& s) {
-  return os << s.data();
+  return os.write(s.data(), s.size());
 }
 
 inline std::ostream& operator<<(std::ostream& os, const StringView& s) {
-  return os << s.data();
+  return os.write(s.data(), s.size());
 }
 
 }  // namespace il
-- 
2.43.0


From 36636f02254f232dc878940fc3e27cb8e7c1b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 033/169] fix: the order of strings does not stop at a zero
 byte

---
 il/container/string/String.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 0528bcf..260d493 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1527,13 +1527,17 @@ inline il::String join(const il::StringView& s0, const il::StringView& s1,
 }
 
 inline bool operator<(const il::String& s0, const il::String& s1) {
-  const int compare = std::strcmp(s0.data(), s1.data());
-  return compare < 0;
+  const il::int_t n = il::min(s0.size(), s1.size());
+  const int compare =
+      std::memcmp(s0.data(), s1.data(), static_cast<std::size_t>(n));
+  return compare < 0 || (compare == 0 && s0.size() < s1.size());
 }
 
 inline bool operator<(const char* s0, const il::String& s1) {
-  const int compare = std::strcmp(s0, s1.data());
-  return compare < 0;
+  const il::int_t n0 = il::size(s0);
+  const il::int_t n = il::min(n0, s1.size());
+  const int compare = std::memcmp(s0, s1.data(), static_cast<std::size_t>(n));
+  return compare < 0 || (compare == 0 && n0 < s1.size());
 }
 
 inline bool operator==(const il::String& s0, const il::String& s1) {
@@ -1592,11 +1596,11 @@ inline il::String toString(const char* s) {
 }
 
 inline std::ostream& operator<<(std::ostream& os, const String& s) {
-  return os.write(s.data(), s.size());
+  return os << std::string(s.data(), static_cast<std::size_t>(s.size()));
 }
 
 inline std::ostream& operator<<(std::ostream& os, const StringView& s) {
-  return os.write(s.data(), s.size());
+  return os << std::string(s.data(), static_cast<std::size_t>(s.size()));
 }
 
 }  // namespace il
-- 
2.43.0


From fc11653258147ea778d06455e74e2f1f013db86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 034/169] fix: inserting in a String terminates it, frees the
 old storage and checks its position

---
 il/container/string/String.h | 129 ++++++++++-------------------------
 1 file changed, 35 insertions(+), 94 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 260d493..0a981ab 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -738,67 +738,37 @@ inline void String::Insert(il::int_t i, char c) {
     IL_EXPECT_MEDIUM(isRuneBoundary(i));
   }
 
-  const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
+  const il::int_t old_n = size();
+  const il::StringType new_type = type();
+  Grow(il::unsafe, old_n, old_n + 1);
   char* p = Data();
-  if (old_size + 1 <= old_capacity) {
-    for (il::int_t k = old_size; k >= i + 1; k--) {
-      p[k] = p[k - 1];
-    }
-    p[i] = c;
-    if (old_is_small) {
-      setSmall(type(), old_size + 1);
-    } else {
-      setLarge(type(), old_size + 1, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + 1);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    new_p[i] = c;
-    std::memcpy(new_p + i + 1, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(type(), old_size + 1, r);
-  }
+  std::memmove(p + i + 1, p + i, static_cast<std::size_t>(old_n - i));
+  p[i] = c;
+  p[old_n + 1] = '\0';
+  SetInvariant(il::unsafe, new_type, old_n + 1);
 }
 
 // inline void String::Insert(il::int_t i, int rune) {}
 
 inline void String::Insert(il::int_t i, il::int_t n, char c) {
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
+  IL_EXPECT_FAST(n >= 0);
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
+                 static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
 
-  const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
+  const il::int_t old_n = size();
+  const il::StringType new_type = type();
+  Grow(il::unsafe, old_n, old_n + n);
   char* p = Data();
-  if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
-      p[k] = p[k - n];
-    }
-    for (il::int_t k = i; k < i + n; ++k) {
-      p[k] = c;
-    }
-    if (old_is_small) {
-      setSmall(type(), old_size + n);
-    } else {
-      setLarge(type(), old_size + n, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + n);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    for (il::int_t k = i; k < i + n; ++k) {
-      new_p[k] = c;
-    }
-    std::memcpy(new_p + i + n, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(type(), old_size + n, r);
+  std::memmove(p + i + n, p + i, static_cast<std::size_t>(old_n - i));
+  for (il::int_t k = i; k < i + n; ++k) {
+    p[k] = c;
   }
+  p[old_n + n] = '\0';
+  SetInvariant(il::unsafe, new_type, old_n + n);
 }
 
 // inline void String::Insert(il::int_t i, il::int_t n, int rune) {}
@@ -812,62 +782,33 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
   }
 
   const il::int_t n = m - 1;
-  const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
+  const il::int_t old_n = size();
+  const il::StringType new_type = joinType(type(), il::StringType::Utf8);
+  Grow(il::unsafe, old_n, old_n + n);
   char* p = Data();
-  if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
-      p[k] = p[k - n];
-    }
-    std::memcpy(p + i, s, n);
-    if (old_is_small) {
-      setSmall(type(), old_size + n);
-    } else {
-      setLarge(type(), old_size + n, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + n);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    std::memcpy(new_p + i, s, n);
-    std::memcpy(new_p + i + n, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(type(), old_size + n, r);
-  }
+  std::memmove(p + i + n, p + i, static_cast<std::size_t>(old_n - i));
+  std::memcpy(p + i, s, static_cast<std::size_t>(n));
+  p[old_n + n] = '\0';
+  SetInvariant(il::unsafe, new_type, old_n + n);
 }
 
 inline void String::Insert(il::int_t i, il::StringType t, const char* s,
                            il::int_t n) {
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
+  IL_EXPECT_FAST(n >= 0);
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
+                 static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
 
-  const il::int_t old_size = size();
-  const il::int_t old_capacity = capacity();
-  const bool old_is_small = isSmall();
-  const il::StringType t_new = il::joinType(type(), t);
+  const il::int_t old_n = size();
+  const il::StringType new_type = joinType(type(), t);
+  Grow(il::unsafe, old_n, old_n + n);
   char* p = Data();
-  if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
-      p[k] = p[k - n];
-    }
-    std::memcpy(p + i, s, n);
-    if (old_is_small) {
-      setSmall(t_new, old_size + n);
-    } else {
-      setLarge(t_new, old_size + n, old_capacity);
-    }
-  } else {
-    const il::int_t r = nextCapacity(old_size + n);
-    char* new_p = il::allocateArray<char>(r + 1);
-    std::memcpy(new_p, p, i);
-    std::memcpy(new_p + i, s, n);
-    std::memcpy(new_p + i + n, p + i, old_size - i);
-    large_.data = new_p;
-    setLarge(t_new, old_size + n, r);
-  }
+  std::memmove(p + i + n, p + i, static_cast<std::size_t>(old_n - i));
+  std::memcpy(p + i, s, static_cast<std::size_t>(n));
+  p[old_n + n] = '\0';
+  SetInvariant(il::unsafe, new_type, old_n + n);
 }
 
 inline void String::Insert(il::int_t i, const StringView& s0) {
-- 
2.43.0


From 89072701714eca8bda87ad136fd653c28e31f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 035/169] fix: isUtf8 accepts exactly the well-formed UTF-8
 strings

---
 il/container/string/String.h | 88 ++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 50 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 0a981ab..b38ae0f 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1112,59 +1112,47 @@ inline constexpr bool isAscii(const char* data) {
 //  return ans;
 //}
 
-inline constexpr bool auxIsUtf8(const char* s, int nbBytes, int pos,
-                                bool surrogate) {
-  return (pos == 0)
-             // If it starts with the null character, the string is valid
-             ? ((*s == 0x00)
-                    ? true
-                    // Otherwise, let's check if is starts with an ASCII
-                    // character
-                    : ((*s & 0x80) == 0
-                           // In this case, check the rest of the string
-                           ? auxIsUtf8(s + 1, 0, 0, false)
-                           // Otherwise, it might start with a 2-byte sequence
-                           : ((*s & 0xD0) == 0xB0
-                                  // In this case, check the rest of the string
-                                  ? auxIsUtf8(s + 1, 2, 1, false)
-                                  // Otherwise, it might start with a 3-byte
-                                  // sequence
-                                  : ((*s & 0xF0) == 0xD0
-                                         // In this case, check the rest of the
-                                         // string
-                                         ? auxIsUtf8(
-                                               s + 1, 3, 1,
-                                               (static_cast<unsigned char>(
-                                                    *s) == 0xED))
-                                         // Otherwise, it might start with a
-                                         // 4-byte sequence
-                                         : ((*s & 0xF8) == 0xF0
-                                                ? auxIsUtf8(s + 1, 4, 1, false)
-                                                : false)))))
-             // In the case where we are scanning the second byte of a multibyte
-             // sequence
-             : ((pos == 1)
-                    ? ((*s & 0xC0) == 0x80
-                           ? (nbBytes == 2 ? ((*s & 0xA0) != 0xA0)
-                                           : auxIsUtf8(s + 1, nbBytes, pos + 1,
-                                                       surrogate))
-                           : false)
-                    // In the case where we are scanning the third byte of a
-                    // multibyte sequence
-                    : ((pos == 2)
-                           ? ((*s & 0xC0) == 0x80
-                                  ? (nbBytes == 3
-                                         ? true
-                                         : auxIsUtf8(s + 1, nbBytes, pos + 1,
-                                                     surrogate))
-                                  : false)
-                           // In the case where we are scanning the
-                           // fourth byte of a multibyte sequence
-                           : ((pos == 3) ? ((*s & 0xC0) == 0x80) : false)));
+// The first byte following a lead byte restricts the range of its first
+// continuation byte so that overlong sequences, surrogates and runes beyond
+// 0x10FFFF are excluded
+inline constexpr bool auxIsUtf8Byte(char c, unsigned char first,
+                                    unsigned char last) {
+  return static_cast<unsigned char>(c) >= first &&
+         static_cast<unsigned char>(c) <= last;
+}
+
+inline constexpr il::int_t auxUtf8SequenceSize(const char* s) {
+  return auxIsUtf8Byte(s[0], 0x00, 0x7F)
+             ? 1
+             : auxIsUtf8Byte(s[0], 0xC2, 0xDF)
+                   ? (auxIsUtf8Byte(s[1], 0x80, 0xBF) ? 2 : 0)
+                   : auxIsUtf8Byte(s[0], 0xE0, 0xEF)
+                         ? ((auxIsUtf8Byte(
+                                 s[1], auxIsUtf8Byte(s[0], 0xE0, 0xE0) ? 0xA0
+                                                                       : 0x80,
+                                 auxIsUtf8Byte(s[0], 0xED, 0xED) ? 0x9F
+                                                                 : 0xBF) &&
+                             auxIsUtf8Byte(s[2], 0x80, 0xBF))
+                                ? 3
+                                : 0)
+                         : auxIsUtf8Byte(s[0], 0xF0, 0xF4)
+                               ? ((auxIsUtf8Byte(
+                                       s[1],
+                                       auxIsUtf8Byte(s[0], 0xF0, 0xF0) ? 0x90
+                                                                       : 0x80,
+                                       auxIsUtf8Byte(s[0], 0xF4, 0xF4)
+                                           ? 0x8F
+                                           : 0xBF) &&
+                                   auxIsUtf8Byte(s[2], 0x80, 0xBF) &&
+                                   auxIsUtf8Byte(s[3], 0x80, 0xBF))
+                                      ? 4
+                                      : 0)
+                               : 0;
 }
 
 inline constexpr bool isUtf8(const char* s) {
-  return auxIsUtf8(s, 0, 0, false);
+  return *s == '\0' ||
+         (auxUtf8SequenceSize(s) > 0 && isUtf8(s + auxUtf8SequenceSize(s)));
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From bc94c33f47d224a458c00dd6a78d9c9bed7d2fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 036/169] fix: toString has room for every integer

---
 il/container/string/algorithmString.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/string/algorithmString.h b/il/container/string/algorithmString.h
index 20a852e..1c6973c 100644
--- a/il/container/string/algorithmString.h
+++ b/il/container/string/algorithmString.h
@@ -26,8 +26,9 @@
 namespace il {
 
 inline il::String toString(il::int_t n) {
-  il::String ans{il::unsafe, 11};
-  const il::int_t m = std::snprintf(ans.Data(), 11 + 1, "%td", n);
+  // The longest 64-bit integer is "-9223372036854775808"
+  il::String ans{il::unsafe, 20};
+  const il::int_t m = std::snprintf(ans.Data(), 20 + 1, "%td", n);
   ans.SetInvariant(il::unsafe, il::StringType::Ascii, m);
 
   IL_ENSURE(m > 0);
-- 
2.43.0


From dae3dbd44945c2acabb455f6df7c414a4345a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 037/169] fix: self-assignment of a heap UTF16String does not
 read released storage

---
 il/container/string/UTF16String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 89cf524..874d085 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -146,6 +146,9 @@ inline UTF16String::UTF16String(UTF16String&& s) {
 }
 
 inline UTF16String& UTF16String::operator=(const UTF16String& s) {
+  if (this == &s) {
+    return *this;
+  }
   const il::int_t size = s.size();
   if (size <= max_small_size_) {
     if (!isSmall()) {
-- 
2.43.0


From 563009f6f765f73750e0a4c37057c3e9de92d9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 038/169] fix: UTF16String move assignment releases the storage
 it replaces

---
 il/container/string/UTF16String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 874d085..9bdeedf 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -178,10 +178,10 @@ inline UTF16String& UTF16String::operator=(const UTF16String& s) {
 inline UTF16String& UTF16String::operator=(UTF16String&& s) {
   if (this != &s) {
     const il::int_t size = s.size();
+    if (!isSmall()) {
+      il::deallocate(large_.data);
+    }
     if (size <= max_small_size_) {
-      if (!isSmall()) {
-        il::deallocate(large_.data);
-      }
       std::memcpy(data_, s.Data(), 2 * (static_cast<std::size_t>(size) + 1));
       SetSmallSize(size);
     } else {
-- 
2.43.0


From 24b6679c3e3fb2f6fe8c037db0b6892184c56263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 039/169] fix: appending n characters to a UTF16String reserves
 and records n of them

---
 il/container/string/UTF16String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 9bdeedf..9b58c14 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -275,7 +275,7 @@ inline void UTF16String::Append(il::int_t n, char c) {
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
 
   const il::int_t old_size = size();
-  const il::int_t new_size = old_size + 1;
+  const il::int_t new_size = old_size + n;
   const il::int_t new_capacity = il::max(new_size, 2 * old_size);
   Reserve(new_capacity);
   unsigned short* data = Data() + old_size;
-- 
2.43.0


From fe68838318d95e62a908182a9e5255f35998e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 040/169] fix: UTF16String::Append(n, rune) appends the rune

---
 il/container/string/UTF16String.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 9b58c14..c0d90f3 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -324,8 +324,10 @@ inline void UTF16String::Append(il::int_t n, int cp) {
   IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(validRune(cp));
 
-  IL_UNUSED(n);
-  IL_UNUSED(cp);
+  Reserve(size() + (cp < 0x00010000 ? n : 2 * n));
+  for (il::int_t i = 0; i < n; ++i) {
+    Append(cp);
+  }
 }
 
 inline const unsigned short* UTF16String::data() const {
-- 
2.43.0


From c02e3751664ca2396433b616b9f3319dc1581742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 041/169] fix: UTF16String accepts no surrogate as a rune

---
 il/container/string/UTF16String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index c0d90f3..f72df17 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -431,11 +431,11 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
 
 inline bool UTF16String::validRune(int cp) const {
   const unsigned int code_point_max = 0x0010FFFFu;
-  const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int surrogate_min = 0x0000D800u;
+  const unsigned int surrogate_max = 0x0000DFFFu;
   const unsigned int ucp = static_cast<unsigned int>(cp);
   return ucp <= code_point_max &&
-         (ucp < lead_surrogate_min || ucp > lead_surrogate_max);
+         (ucp < surrogate_min || ucp > surrogate_max);
 }
 }  // namespace il
 
-- 
2.43.0


From 7de71b9a8b991032250ab7ee58c81f250eaac34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 042/169] fix: toUtf16 and toUtf8 add no zero character to the
 text

---
 il/container/string/unicode.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/il/container/string/unicode.h b/il/container/string/unicode.h
index 34e6728..37f390c 100644
--- a/il/container/string/unicode.h
+++ b/il/container/string/unicode.h
@@ -92,7 +92,6 @@ inline il::UTF16String toUtf16(const il::String& string) {
   for (il::int_t i = 0; i < view.size(); i = view.nextRune(i)) {
     ans.Append(view.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
@@ -102,7 +101,6 @@ inline il::String toUtf8(const il::UTF16String& string) {
   for (il::int_t i = 0; i < string.size(); i = string.nextRune(i)) {
     ans.Append(string.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
-- 
2.43.0


From ca48d9430c9c2dabdda3c16f6b3b242e371d60b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 043/169] fix: Map move assignment compiles and resets its
 source

---
 il/container/hash/Map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index c96b366..cc88ac5 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -357,7 +357,7 @@ Map<K, V, F>& Map<K, V, F>::operator=(Map<K, V, F>&& map) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::is_empy(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
+        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
           (&((bucket_ + i)->value))->~V();
           (&((bucket_ + i)->key))->~K();
         }
@@ -376,6 +376,9 @@ Map<K, V, F>& Map<K, V, F>::operator=(Map<K, V, F>&& map) {
     nb_tombstones_ = map.nb_tombstones_;
     map.bucket_ = nullptr;
     map.p_ = -1;
+#ifdef IL_DEBUGGER_HELPERS
+    map.size_ = 0;
+#endif
     map.nb_elements_ = 0;
     map.nb_tombstones_ = 0;
 #ifdef IL_DEBUG_CLASS
-- 
2.43.0


From 3b2b95c63f7252cb1dd4fec141117bd00a9aac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 044/169] fix: Map inserts and searches keys given as
 characters and length

---
 il/container/hash/Map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index cc88ac5..d57fb12 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -582,7 +582,7 @@ il::spot_t Map<K, V, F>::searchCString(const char* key, il::int_t n) const {
   }
 
   const std::size_t mask = (static_cast<std::size_t>(1) << p_) - 1;
-  std::size_t i = F::hash(key, n) & mask;
+  std::size_t i = F::hash(key, n, p_);
   std::size_t i_tombstone = -1;
   std::size_t delta_i = 1;
   while (true) {
@@ -637,7 +637,7 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
     il::spot_t j = searchCString(key, n);
     i_local = -(1 + j.index);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key, n);
+  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(il::StringType::Byte, key, n);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
 
-- 
2.43.0


From 0791d81875ba5dcbb5dfe03403589ff883797ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 045/169] fix: Map copy constructor initializes the buckets of
 an empty copy

---
 il/container/hash/Map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index d57fb12..e9ebdca 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -277,6 +277,8 @@ Map<K, V, F>::Map(const Map<K, V, F>& map) {
       hash_ += F::hash(map.key(i), p_);
 #endif
     }
+  } else {
+    bucket_ = nullptr;
   }
 }
 
-- 
2.43.0


From 2ad56435e0cd61a7c5a8bafb74c3ddc676353c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 046/169] fix: Map built from an empty list has zero elements

---
 il/container/hash/Map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index e9ebdca..b59c210 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -220,6 +220,8 @@ Map<K, V, F>::Map(il::value_t, std::initializer_list<il::KeyValue<K, V>> list) {
 
   if (n == 0) {
     bucket_ = nullptr;
+    nb_elements_ = 0;
+    nb_tombstones_ = 0;
     p_ = -1;
 #ifdef IL_DEBUGGER_HELPERS
     size_ = 0;
-- 
2.43.0


From f3fdc5932050e535d397d5d798dbfb2cef9cba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 047/169] fix: Map copy assignment releases its old content and
 supports self assignment

---
 il/container/hash/Map.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index b59c210..5664767 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -310,19 +310,22 @@ Map<K, V, F>::Map(Map<K, V, F>&& map) {
 
 template <typename K, typename V, typename F>
 Map<K, V, F>& Map<K, V, F>::operator=(const Map<K, V, F>& map) {
+  if (this == &map) {
+    return *this;
+  }
   const int p = map.p_;
   const int old_p = p_;
-  if (p >= 0) {
-    if (old_p >= 0) {
-      const il::int_t old_m = nbBuckets(old_p);
-      for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
-          (&((bucket_ + i)->value))->~V();
-          (&((bucket_ + i)->key))->~K();
-        }
+  if (old_p >= 0) {
+    const il::int_t old_m = nbBuckets(old_p);
+    for (il::int_t i = 0; i < old_m; ++i) {
+      if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
+        (&((bucket_ + i)->value))->~V();
+        (&((bucket_ + i)->key))->~K();
       }
     }
     il::deallocate(bucket_);
+  }
+  if (p >= 0) {
     const il::int_t m = nbBuckets(p);
     bucket_ = il::allocateArray<KeyValue<K, V>>(m);
     for (il::int_t i = 0; i < m; ++i) {
-- 
2.43.0


From 51b1d119e441af8beb29d550bef19f256861b91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 048/169] fix: Map::Rehash inserts the elements again

---
 il/container/hash/Map.h | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 5664767..c0a1e0e 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -1082,22 +1082,9 @@ void Map<K, V, F>::ReserveWithP(int p) {
 template <typename K, typename V, typename F>
 void Map<K, V, F>::Rehash() {
   if (nb_tombstones_ > 0) {
-    const il::int_t m = nbBuckets();
-    KeyValue<K, V>* bucket = il::allocateArray<KeyValue<K, V>>(m);
-    for (il::int_t i = 0; i < m; ++i) {
-      F::constructEmpty(il::io, reinterpret_cast<K*>(bucket + i));
-    }
-    for (il::int_t i = 0; i < m; ++i) {
-      if (!(F::isEmpty(bucket_[i].key) || F::isTombstone(bucket_[i].key))) {
-        new (&((bucket + i)->key)) K(std::move(bucket_[i].key));
-        new (&((bucket + i)->value)) V(std::move(bucket_[i].value));
-        ((bucket_ + i)->value).~V();
-        ((bucket_ + i)->key).~K();
-      }
-    }
-    il::deallocate(bucket_);
-    bucket_ = bucket;
-    nb_tombstones_ = 0;
+    // The probe sequences do not have tombstones to go through anymore: the
+    // elements have to be inserted again
+    ReserveWithP(p_);
   }
 #ifdef IL_DEBUG_CLASS
   hash_ = 2 * hash_;
-- 
2.43.0


From 6749c41694cf7dbb93fd7144ab7a8fce5f3bbc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 049/169] fix: Map::erase hashes the key before destroying it

---
 il/container/hash/Map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index c0a1e0e..ec5ca9f 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -809,10 +809,10 @@ void Map<K, V, F>::erase(il::spot_t i) {
 #endif
   IL_EXPECT_FAST(found(i));
 
-  (&((bucket_ + i.index)->key))->~K();
 #ifdef IL_DEBUG_CLASS
   hash_ -= F::hash((bucket_ + i.index)->key, p_);
 #endif
+  (&((bucket_ + i.index)->key))->~K();
   F::constructTombstone(il::io, reinterpret_cast<K*>(bucket_ + i.index));
   (&((bucket_ + i.index)->value))->~V();
   --nb_elements_;
-- 
2.43.0


From dcb2730aabbdd1c4a5bc950ec6fb47922a2801ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 050/169] fix: Map::Reserve never drops elements

---
 il/container/hash/Map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index ec5ca9f..3d8eb85 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -927,7 +927,10 @@ template <typename K, typename V, typename F>
 void Map<K, V, F>::Reserve(il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
 
-  ReserveWithP(pForSlots(n));
+  const int p = pForSlots(n > nb_elements_ ? n : nb_elements_);
+  if (p >= 0) {
+    ReserveWithP(p);
+  }
 }
 
 template <typename K, typename V, typename F>
-- 
2.43.0


From fc8545469c4bcd8a63a09f9623b1e76bbcec8322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 051/169] fix: iterating over a Map without buckets

---
 il/container/hash/Map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 3d8eb85..95319ee 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -998,7 +998,7 @@ void Map<K, V, F>::Clear() {
 
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotBegin() const {
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i = 0;
   while (i < m &&
@@ -1016,7 +1016,7 @@ il::spot_t Map<K, V, F>::spotBegin() const {
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotEnd() const {
   il::spot_t s;
-  s.index = il::int_t{1} << p_;
+  s.index = nbBuckets();
 #ifdef IL_DEBUG_CLASS
   s.signature = hash_;
 #endif
@@ -1028,7 +1028,7 @@ il::spot_t Map<K, V, F>::next(il::spot_t i) const {
 #ifdef IL_DEBUG_CLASS
   IL_EXPECT_MEDIUM(i.signature == hash_);
 #endif
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i_local = i.index;
   ++i_local;
-- 
2.43.0


From 5b8c4ff06c16abf118279e2af3e09b8ab22a0fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 052/169] fix: Map::valueForKey does not return a reference to
 a temporary

---
 il/container/hash/Map.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 95319ee..8afff62 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -106,10 +106,10 @@ class Map {
   const K& key(il::spot_t i) const;
   const V& value(il::spot_t i) const;
   V& Value(il::spot_t i);
-  const V& valueForKey(const K& key) const;
+  V valueForKey(const K& key) const;
   const V& valueForKey(const K& key, const V& default_value) const;
   template <il::int_t m>
-  const V& valueForCString(const char (&key)[m]) const;
+  V valueForCString(const char (&key)[m]) const;
   template <il::int_t m>
   const V& valueForCString(const char (&key)[m], const V& default_value) const;
 
@@ -859,7 +859,7 @@ V& Map<K, V, F>::Value(il::spot_t i) {
 }
 
 template <typename K, typename V, typename F>
-const V& Map<K, V, F>::valueForKey(const K& key) const {
+V Map<K, V, F>::valueForKey(const K& key) const {
   const il::spot_t i = search(key);
   if (found(i)) {
     return value(i);
@@ -880,7 +880,7 @@ const V& Map<K, V, F>::valueForKey(const K& key, const V& default_value) const {
 
 template <typename K, typename V, typename F>
 template <il::int_t m>
-const V& Map<K, V, F>::valueForCString(const char (&key)[m]) const {
+V Map<K, V, F>::valueForCString(const char (&key)[m]) const {
   const il::spot_t i = search(key);
   if (found(i)) {
     return value(i);
-- 
2.43.0


From 94fa737a08b6ace77a785defb95edd248ea3bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 053/169] fix: Map::Set accepts a key or a value stored in the
 map itself

---
 il/container/hash/Map.h | 81 ++++++++++++++++++++++++++++++-----------
 1 file changed, 60 insertions(+), 21 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 8afff62..e089ac6 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -415,8 +415,9 @@ void Map<K, V, F>::Set(const K& key, const V& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
+    V new_value(value);
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(value);
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -443,8 +444,9 @@ void Map<K, V, F>::Set(K&& key, const V& value) {
   if (!found(i)) {
     Set(std::move(key), value, il::io, i);
   } else {
+    V new_value(value);
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(std::move(value));
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -472,8 +474,9 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value) {
   if (!found(i)) {
     Set(key, value, il::io, i);
   } else {
+    V new_value(value);
     (bucket_ + i.index)->value.~V();
-    new (&((bucket_ + i.index)->value)) V(value);
+    new (&((bucket_ + i.index)->value)) V(std::move(new_value));
   }
 #ifdef IL_DEBUG_CLASS
   hash_ += F::hash(this->key(i), p_);
@@ -636,16 +639,22 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
   const il::int_t nb_buckets = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(nb_buckets)) {
+    // The arguments might be in the buckets that are going to be released
+    K new_key(il::StringType::Byte, key, n);
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = searchCString(key, n);
+    il::spot_t j = search(new_key);
     i_local = -(1 + j.index);
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(new_key));
+    new (&((bucket_ + i_local)->value)) V(std::move(new_value));
+  } else {
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(il::StringType::Byte, key, n);
+    new (&((bucket_ + i_local)->value)) V(value);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(il::StringType::Byte, key, n);
-  new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
 
   i.index = i_local;
@@ -668,16 +677,22 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
   const il::int_t nb_buckets = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(nb_buckets)) {
+    // The arguments might be in the buckets that are going to be released
+    K new_key(key);
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = searchCString(key);
+    il::spot_t j = search(new_key);
     i_local = -(1 + j.index);
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(new_key));
+    new (&((bucket_ + i_local)->value)) V(std::move(new_value));
+  } else {
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
+    new (&((bucket_ + i_local)->value)) V(value);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
@@ -697,16 +712,22 @@ void Map<K, V, F>::Set(const K& key, const V& value, il::io_t, il::spot_t& i) {
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // The arguments might be in the buckets that are going to be released
+    K new_key(key);
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = search(key);
+    il::spot_t j = search(new_key);
     i_local = -(1 + j.index);
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(new_key));
+    new (&((bucket_ + i_local)->value)) V(std::move(new_value));
+  } else {
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
+    new (&((bucket_ + i_local)->value)) V(value);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
@@ -726,16 +747,22 @@ void Map<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // The arguments might be in the buckets that are going to be released
+    K new_key(key);
+    V new_value(std::move(value));
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = search(key);
+    il::spot_t j = search(new_key);
     i_local = -(1 + j.index);
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(new_key));
+    new (&((bucket_ + i_local)->value)) V(std::move(new_value));
+  } else {
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
+    new (&((bucket_ + i_local)->value)) V(std::move(value));
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
-  new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
@@ -755,16 +782,22 @@ void Map<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // The arguments might be in the buckets that are going to be released
+    K new_key(std::move(key));
+    V new_value(value);
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = search(key);
+    il::spot_t j = search(new_key);
     i_local = -(1 + j.index);
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(new_key));
+    new (&((bucket_ + i_local)->value)) V(std::move(new_value));
+  } else {
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
+    new (&((bucket_ + i_local)->value)) V(value);
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
-  new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
@@ -784,16 +817,22 @@ void Map<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t m = nbBuckets();
   if (4 * (static_cast<std::size_t>(nb_elements_) + 1) >
       3 * static_cast<std::size_t>(m)) {
+    // The arguments might be in the buckets that are going to be released
+    K new_key(std::move(key));
+    V new_value(std::move(value));
     if (p_ + 1 <= static_cast<int>(sizeof(std::size_t) * 8 - 2)) {
       ReserveWithP(p_ == -1 ? 1 : p_ + 1);
     } else {
       il::abort();
     }
-    il::spot_t j = search(key);
+    il::spot_t j = search(new_key);
     i_local = -(1 + j.index);
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(new_key));
+    new (&((bucket_ + i_local)->value)) V(std::move(new_value));
+  } else {
+    new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
+    new (&((bucket_ + i_local)->value)) V(std::move(value));
   }
-  new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
-  new (&((bucket_ + i_local)->value)) V(std::move(value));
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
-- 
2.43.0


From d647b215588ac7c9945576c719ce73ff70fecf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 054/169] fix: MapArray uses the signature of its map in debug
 mode

---
 il/container/hash/MapArray.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index df4a60c..2d261ff 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -89,7 +89,7 @@ MapArray<K, V, F>::MapArray(il::value_t,
     }
   }
 #ifdef IL_DEBUG_CLASS
-  hash_ = static_cast<std::size_t>(n);
+  hash_ = map_.hash();
 #endif
 };
 
@@ -99,7 +99,7 @@ void MapArray<K, V, F>::Set(const K& key, const V& value) {
   array_.Append(il::emplace, key, value);
   map_.Set(key, i);
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
 #endif
 }
 
@@ -109,7 +109,7 @@ void MapArray<K, V, F>::Set(const K& key, V&& value) {
   array_.Append(il::emplace, key, std::move(value));
   map_.Set(key, i);
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
 #endif
 }
 
@@ -119,7 +119,7 @@ void MapArray<K, V, F>::Set(K&& key, V&& value) {
   array_.Append(il::emplace, key, std::move(value));
   map_.Set(std::move(key), i);
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
 #endif
 }
 
@@ -132,7 +132,7 @@ void MapArray<K, V, F>::Set(const K& key, const V& value, il::io_t,
 
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
   i.signature = hash_;
 #endif
 }
@@ -144,7 +144,7 @@ void MapArray<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
   map_.Set(key, j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
   i.signature = hash_;
 #endif
 }
@@ -156,7 +156,7 @@ void MapArray<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   map_.Set(std::move(key), j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
   i.signature = hash_;
 #endif
 }
-- 
2.43.0


From e4e9ccf96ab335b4744728a3669d3593e7159976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 055/169] fix: MapArray::Set on a present key changes its value

---
 il/container/hash/MapArray.h | 37 ++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index 2d261ff..f0eacfc 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -83,9 +83,7 @@ MapArray<K, V, F>::MapArray(il::value_t,
     array_.Reserve(n);
     map_.Reserve(n);
     for (il::int_t i = 0; i < n; ++i) {
-      array_.Append(il::emplace, (list.begin() + i)->key,
-                    (list.begin() + i)->value);
-      map_.Set((list.begin() + i)->key, i);
+      Set((list.begin() + i)->key, (list.begin() + i)->value);
     }
   }
 #ifdef IL_DEBUG_CLASS
@@ -95,9 +93,14 @@ MapArray<K, V, F>::MapArray(il::value_t,
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, const V& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, value);
-  map_.Set(key, i);
+  il::spot_t i = map_.search(key);
+  if (map_.found(i)) {
+    array_[map_.value(i)].value = value;
+  } else {
+    const il::int_t j = array_.size();
+    array_.Append(il::emplace, key, value);
+    map_.Set(key, j, il::io, i);
+  }
 #ifdef IL_DEBUG_CLASS
   hash_ = map_.hash();
 #endif
@@ -105,9 +108,14 @@ void MapArray<K, V, F>::Set(const K& key, const V& value) {
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, V&& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, std::move(value));
-  map_.Set(key, i);
+  il::spot_t i = map_.search(key);
+  if (map_.found(i)) {
+    array_[map_.value(i)].value = std::move(value);
+  } else {
+    const il::int_t j = array_.size();
+    array_.Append(il::emplace, key, std::move(value));
+    map_.Set(key, j, il::io, i);
+  }
 #ifdef IL_DEBUG_CLASS
   hash_ = map_.hash();
 #endif
@@ -115,9 +123,14 @@ void MapArray<K, V, F>::Set(const K& key, V&& value) {
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value) {
-  const il::int_t i = array_.size();
-  array_.Append(il::emplace, key, std::move(value));
-  map_.Set(std::move(key), i);
+  il::spot_t i = map_.search(key);
+  if (map_.found(i)) {
+    array_[map_.value(i)].value = std::move(value);
+  } else {
+    const il::int_t j = array_.size();
+    array_.Append(il::emplace, key, std::move(value));
+    map_.Set(std::move(key), j, il::io, i);
+  }
 #ifdef IL_DEBUG_CLASS
   hash_ = map_.hash();
 #endif
-- 
2.43.0


From 537774478cddc3c73ddb26c6de67ebc08362eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 056/169] fix: Set compiles

---
 il/container/hash/Set.h | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index ed81b46..a5bd087 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -20,7 +20,6 @@
 #define IL_SET_H
 
 #include <il/container/hash/HashFunction.h>
-#include <il/container/hash/Spot.h>
 
 namespace il {
 
@@ -41,7 +40,7 @@ class Set {
   ~Set();
 
   il::spot_t search(const T& x) const;
-  void Add(const T& x, il::io_t, il::spot_t i);
+  void Add(const T& x, il::io_t, il::spot_t& i);
   void Add(const T& x);
   bool found(il::spot_t i) const;
   bool contains(const T& x) const;
@@ -103,7 +102,7 @@ Set<T, F>& Set<T, F>::operator=(const Set<T, F>& set) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
+        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
           (bucket_ + i)->~T();
         }
       }
@@ -137,9 +136,8 @@ Set<T, F>& Set<T, F>::operator=(Set<T, F>&& set) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::is_empy(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
-          (&((bucket_ + i)->value))->~V();
-          (&((bucket_ + i)->key))->~K();
+        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
+          (bucket_ + i)->~T();
         }
       }
       il::deallocate(bucket_);
@@ -272,12 +270,7 @@ il::spot_t Set<T, F>::spotBegin() const {
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::spotEnd() const {
-#ifdef IL_DEBUG_CLASS
-  return il::spot_t{static_cast<il::int_t>(static_cast<std::size_t>(1) << p_),
-                    0};
-#else
   return il::spot_t{static_cast<il::int_t>(static_cast<std::size_t>(1) << p_)};
-#endif
 }
 
 template <typename T, typename F>
-- 
2.43.0


From b4d048a7c850360f1a929c391006383436f72dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 057/169] fix: Set copy constructor initializes the buckets of
 an empty copy

---
 il/container/hash/Set.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index a5bd087..ec0e31b 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -79,6 +79,8 @@ Set<T, F>::Set(const Set<T, F>& set) {
     for (il::spot_t i = set.spotBegin(); i != set.spotEnd(); i = set.next(i)) {
       Add(set.element(i));
     }
+  } else {
+    bucket_ = nullptr;
   }
 }
 
-- 
2.43.0


From 8fdfbe98f783414becff18158598bce225a43c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 058/169] fix: Set copy assignment releases its old content and
 supports self assignment

---
 il/container/hash/Set.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index ec0e31b..d09f298 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -98,18 +98,21 @@ Set<T, F>::Set(Set<T, F>&& set) {
 
 template <typename T, typename F>
 Set<T, F>& Set<T, F>::operator=(const Set<T, F>& set) {
+  if (this == &set) {
+    return *this;
+  }
   const int p = set.p_;
   const int old_p = p_;
-  if (p >= 0) {
-    if (old_p >= 0) {
-      const il::int_t old_m = nbBuckets(old_p);
-      for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
-          (bucket_ + i)->~T();
-        }
+  if (old_p >= 0) {
+    const il::int_t old_m = nbBuckets(old_p);
+    for (il::int_t i = 0; i < old_m; ++i) {
+      if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
+        (bucket_ + i)->~T();
       }
     }
     il::deallocate(bucket_);
+  }
+  if (p >= 0) {
     const il::int_t m = nbBuckets(p);
     bucket_ = il::allocateArray<T>(m);
     for (il::int_t i = 0; i < m; ++i) {
-- 
2.43.0


From be83bbe84149da0aec0ff2c19f0acd4f82a33b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 059/169] fix: Set::Clear empties the buckets

---
 il/container/hash/Set.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index d09f298..d536de2 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -252,9 +252,11 @@ void Set<T, F>::Clear() {
       if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
         (bucket_ + i)->~T();
       }
+      F::constructEmpty(il::io, bucket_ + i);
     }
   }
   nb_elements_ = 0;
+  nb_tombstones_ = 0;
 }
 
 template <typename T, typename F>
-- 
2.43.0


From f07bf9ddaa6ca08970dadcdf08f0d63684afc7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 060/169] fix: iterating over a Set without buckets

---
 il/container/hash/Set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index d536de2..53540b1 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -266,7 +266,7 @@ const T& Set<T, F>::element(il::spot_t i) const {
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::spotBegin() const {
-  const il::int_t m = static_cast<il::int_t>(static_cast<std::size_t>(1) << p_);
+  const il::int_t m = nbBuckets();
 
   il::int_t i = 0;
   while (i < m && (F::isEmpty(bucket_[i]) || F::isTombstone(bucket_[i]))) {
@@ -277,12 +277,12 @@ il::spot_t Set<T, F>::spotBegin() const {
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::spotEnd() const {
-  return il::spot_t{static_cast<il::int_t>(static_cast<std::size_t>(1) << p_)};
+  return il::spot_t{nbBuckets()};
 }
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::next(il::spot_t i) const {
-  const il::int_t m = static_cast<il::int_t>(static_cast<std::size_t>(1) << p_);
+  const il::int_t m = nbBuckets();
 
   il::int_t i_local = i.index;
   ++i_local;
-- 
2.43.0


From 800ee5b6f5442fefddcf7d3c757d655c86c3ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 061/169] fix: Deque::PushBack does not overwrite the front of
 a full deque

---
 il/container/deque/Deque.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index e609004..812ac16 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -133,7 +133,7 @@ void Deque<T>::PushBack(const T& x) {
     data_[0] = x;
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 < (front_ <= back_ ? data_.size() : front_)) {
     ++back_;
     data_[back_] = x;
   } else if (back_ + 1 == data_.size()) {
@@ -155,7 +155,7 @@ void Deque<T>::PushBack(il::emplace_t, Args&&... args) {
     data_[0] = T(std::forward<Args>(args)...);
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 < (front_ <= back_ ? data_.size() : front_)) {
     ++back_;
     data_[back_] = T(std::forward<Args>(args)...);
   } else if (back_ + 1 == data_.size()) {
-- 
2.43.0


From 2aeb9b61ce933246cf6a5ffe5f1f675e0c0bbf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 062/169] fix: Deque::PopBack of the last element empties the
 deque

---
 il/container/deque/Deque.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index 812ac16..0f5fda0 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -216,7 +216,10 @@ template <typename T>
 void Deque<T>::PopBack() {
   IL_EXPECT_MEDIUM(size() > 0);
 
-  if (back_ > 0) {
+  if (size() == 1) {
+    front_ = -1;
+    back_ = -1;
+  } else if (back_ > 0) {
     --back_;
   } else {
     back_ = data_.size() - 1;
-- 
2.43.0


From 0e649ba01d7d492ff8bcdefccdf6e9022c99135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 063/169] fix: Tree of a given depth with one child per node

---
 il/container/tree/Tree.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index e59544c..e7857c8 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -74,11 +74,12 @@ Tree<T, n>::Tree() : tree_{1, il::emplace, true} {}
 
 template <typename T, il::int_t n>
 Tree<T, n>::Tree(il::int_t depth) {
-  il::int_t m = n;
+  il::int_t m = 1;
+  il::int_t fac = 1;
   for (il::int_t k = 0; k < depth; ++k) {
-    m *= n;
+    fac *= n;
+    m += fac;
   }
-  m = (m - 1) / (n - 1);
   tree_.Reserve(m);
   tree_.Resize(1, il::emplace, true);
 };
-- 
2.43.0


From ee65fc54af47d9d9372226ec2024170d9698fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 064/169] fix: Tree::depth does not count a level that does not
 exist

---
 il/container/tree/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index e7857c8..cad1ade 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -89,7 +89,7 @@ il::int_t Tree<T, n>::depth() const {
   il::int_t m = tree_.size();
   il::int_t fac = 1;
   il::int_t depth = -1;
-  while (m >= 0) {
+  while (m > 0) {
     m -= fac;
     fac *= n;
     ++depth;
-- 
2.43.0


From 6beee938a519d93848c01af8ce265c1565829197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 065/169] fix: a Tree node with a value is not empty

---
 il/container/tree/Tree.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index cad1ade..397dac8 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -119,9 +119,7 @@ il::spot_t Tree<T, n>::child(il::spot_t s, il::int_t i) const {
 template <typename T, il::int_t n>
 void Tree<T, n>::Set(il::spot_t s, T x) {
   tree_[s.index].value = x;
-  if (tree_[s.index].flag % 2 == 0) {
-    tree_[s.index].flag += 1;
-  }
+  tree_[s.index].flag |= 3;
 }
 
 template <typename T, il::int_t n>
-- 
2.43.0


From 77689a605393bec623e1249d882f5aaefef0764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 066/169] fix: Tree keeps track of more than six children

---
 il/container/tree/Tree.h | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index 397dac8..e0d200d 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -36,17 +36,18 @@ namespace il {
 template <typename T, il::int_t n>
 class Tree {
  private:
+  static_assert(n <= 62, "il::Tree: too many children per node");
   struct Node {
    public:
     T value;
-    unsigned char flag;
+    il::uint_t flag;
 
    public:
     Node() : Node{false} {};
     Node(bool valid)
         : value{},
-          flag{valid ? static_cast<unsigned char>(1)
-                     : static_cast<unsigned char>(0)} {};
+          flag{valid ? static_cast<il::uint_t>(1)
+                     : static_cast<il::uint_t>(0)} {};
     bool isValid() const { return (flag % 2) == 1; };
     bool isEmpty() const { return ((flag / 2) % 2) == 0; };
     bool hasChild() const { return flag >= 4; };
@@ -134,25 +135,14 @@ bool Tree<T, n>::hasChild(il::spot_t s) const {
 
 template <typename T, il::int_t n>
 bool Tree<T, n>::hasChild(il::spot_t s, il::int_t i) const {
-  unsigned char flag = tree_[s.index].flag;
-  if (i == 0) {
-    return (flag / 4) % 2 == 1;
-  } else if (i == 1) {
-    return (flag / 8) % 2 == 1;
-  } else if (i == 2) {
-    return (flag / 16) % 2 == 1;
-  } else if (i == 3) {
-    return (flag / 32) % 2 == 1;
-  } else {
-    IL_UNREACHABLE;
-  }
-  IL_UNREACHABLE;
-  return true;
+  IL_EXPECT_MEDIUM(i >= 0 && i < n);
+
+  return (tree_[s.index].flag >> (2 + i)) % 2 == 1;
 };
 
 template <typename T, il::int_t n>
 il::SmallArray<il::int_t, n> Tree<T, n>::children(il::spot_t s) const {
-  il::int_t flag = tree_[s.index].flag / 4;
+  il::uint_t flag = tree_[s.index].flag / 4;
   il::SmallArray<il::int_t, n> ans{};
   il::int_t i = 0;
   while (flag != 0) {
@@ -169,7 +159,7 @@ template <typename T, il::int_t n>
 void Tree<T, n>::AddChild(il::spot_t s, il::int_t i) {
   IL_EXPECT_MEDIUM(i >= 0 && i < n);
 
-  unsigned char flag = 1 << (2 + i);
+  const il::uint_t flag = static_cast<il::uint_t>(1) << (2 + i);
   tree_[s.index].flag = tree_[s.index].flag | flag;
   if (n * s.index + 1 + i >= tree_.size()) {
     tree_.Resize(n * s.index + 2 + i);
-- 
2.43.0


From 8af858e2c6ef86e69a70e85b7e3f8f6b0823bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 067/169] fix: Error::ParseTable and Error::ParseDuplicateKey
 have different codes

---
 il/container/info/Status.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/info/Status.h b/il/container/info/Status.h
index 5a63664..0865e33 100644
--- a/il/container/info/Status.h
+++ b/il/container/info/Status.h
@@ -62,7 +62,7 @@ enum class Error : unsigned short {
   ParseCanNotDetermineType = 1 * 256 + 10,
   ParseHeterogeneousArray = 1 * 256 + 12,
   ParseArray = 1 * 256 + 13,
-  ParseTable = 1 * 256 + 14,
+  ParseTable = 1 * 256 + 17,
   ParseDuplicateKey = 1 * 256 + 14,
   ParseKey = 1 * 256 + 15,
   ParseValue = 1 * 256 + 16,
-- 
2.43.0


From e1e50691854f28814107959e5bf7aed8c1c4391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 068/169] fix: Info releases its memory

---
 il/container/info/Info.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 37ff6ab..1523517 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -47,6 +47,7 @@ class Info {
   Info(Info&& other);
   Info& operator=(const Info& other);
   Info& operator=(Info&& other);
+  ~Info();
 
   bool isEmpty() const;
   void clear();
@@ -160,6 +161,9 @@ inline Info& Info::operator=(Info&& other) {
       std::memcpy(small_, other.data(), size);
       SetSmallSize(size);
     } else {
+      if (!isSmall()) {
+        delete[] large_.data;
+      }
       large_ = other.large_;
       other.SetSmallSize(0);
     }
@@ -167,6 +171,12 @@ inline Info& Info::operator=(Info&& other) {
   return *this;
 }
 
+inline Info::~Info() {
+  if (!isSmall()) {
+    delete[] large_.data;
+  }
+}
+
 inline void Info::Set(const char* key, int value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
-- 
2.43.0


From 096ccd769923114bbe5032576a50a8df21886745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 069/169] fix: Info::search compares whole keys and finds keys
 that are not ASCII

---
 il/container/info/Info.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 1523517..933ca6c 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -280,10 +280,11 @@ inline il::int_t Info::search(const char* key) const {
     const int step = get_int(i);
 
     j = 0;
-    while (key[j] != '\0' && p[i + sizeof(int) + j] == key[j]) {
+    while (key[j] != '\0' &&
+           p[i + sizeof(int) + j] == static_cast<unsigned char>(key[j])) {
       ++j;
     }
-    if (p[i + sizeof(int) + j] == '\0') {
+    if (key[j] == '\0' && p[i + sizeof(int) + j] == '\0') {
       found = true;
     } else {
       i += step;
-- 
2.43.0


From adcb0ca4619fd0c0585b3b7aaf0b9ff6cbbdec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 070/169] fix: an int stored in an Info is read back as an
 integer

---
 il/container/info/Info.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 933ca6c..9d70247 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -179,7 +179,8 @@ inline Info::~Info() {
 
 inline void Info::Set(const char* key, int value) {
   const int key_length = static_cast<int>(strlen(key));
-  const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
+  const int n =
+      key_length + 2 + static_cast<int>(sizeof(int) + sizeof(il::int_t));
   il::int_t i = size();
   Resize(i + n);
 
@@ -193,10 +194,10 @@ inline void Info::Set(const char* key, int value) {
   }
   i += key_length + 1;
 
-  p[i] = 3;
+  p[i] = 0;
   ++i;
 
-  Set(value, p + i);
+  Set(static_cast<il::int_t>(value), p + i);
 }
 
 #ifdef IL_64_BIT
-- 
2.43.0


From dadc21aff93015f0dd766a23e37c5092ac9a7743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 071/169] fix: Info keeps the last value stored under a name

---
 il/container/info/Info.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 9d70247..5badd8d 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -84,6 +84,7 @@ class Info {
   const unsigned char* data() const;
   unsigned char* data();
   void Resize(il::int_t n);
+  void Remove(const char* key);
 
   bool isSmall() const;
   void SetSmallSize(il::int_t n);
@@ -127,6 +128,9 @@ inline Info::Info(Info&& other) {
 }
 
 inline Info& Info::operator=(const Info& other) {
+  if (this == &other) {
+    return *this;
+  }
   const il::int_t size = other.size();
   if (size <= max_small_size_) {
     if (!isSmall()) {
@@ -178,6 +182,7 @@ inline Info::~Info() {
 }
 
 inline void Info::Set(const char* key, int value) {
+  Remove(key);
   const int key_length = static_cast<int>(strlen(key));
   const int n =
       key_length + 2 + static_cast<int>(sizeof(int) + sizeof(il::int_t));
@@ -202,6 +207,7 @@ inline void Info::Set(const char* key, int value) {
 
 #ifdef IL_64_BIT
 inline void Info::Set(const char* key, il::int_t value) {
+  Remove(key);
   const int key_length = static_cast<int>(strlen(key));
   const int n =
       key_length + 2 + static_cast<int>(sizeof(int) + sizeof(il::int_t));
@@ -226,6 +232,7 @@ inline void Info::Set(const char* key, il::int_t value) {
 #endif
 
 inline void Info::Set(const char* key, double value) {
+  Remove(key);
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + static_cast<int>(sizeof(int) + sizeof(double));
   il::int_t i = size();
@@ -248,6 +255,7 @@ inline void Info::Set(const char* key, double value) {
 }
 
 inline void Info::Set(const char* key, const char* value) {
+  Remove(key);
   const int key_length = static_cast<int>(strlen(key));
   const int value_length = static_cast<int>(strlen(value));
   const int n = key_length + value_length + 3 + static_cast<int>(sizeof(int));
@@ -489,6 +497,18 @@ inline void Info::Resize(il::int_t n) {
   }
 }
 
+inline void Info::Remove(const char* key) {
+  const il::int_t i = search(key);
+  if (found(i)) {
+    const il::int_t begin = i - static_cast<il::int_t>(std::strlen(key)) - 1 -
+                            static_cast<il::int_t>(sizeof(int));
+    const il::int_t end = begin + get_int(begin);
+    unsigned char* p = data();
+    std::memmove(p + begin, p + end, size() - end);
+    Resize(size() - (end - begin));
+  }
+}
+
 inline void Info::clear() {
   if (!isSmall()) {
     delete[] large_.data;
-- 
2.43.0


From 470a14a98525def5c092c534c684ca2bdca02f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 072/169] fix: Dynamic holding an array of unsigned int reports
 that type

---
 il/container/dynamic/Dynamic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 00db025..0c45e83 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -268,13 +268,13 @@ inline Dynamic::Dynamic(const il::Array<short> &value) {
 }
 
 inline Dynamic::Dynamic(const il::Array<unsigned int> &value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
 
 inline Dynamic::Dynamic(il::Array<unsigned int> &&value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
-- 
2.43.0


From 9cd2983892edf5fb44aa64794414a35495e069dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 073/169] fix: define the Dynamic constructor moving an array
 of short

---
 il/container/dynamic/Dynamic.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 0c45e83..6a99a92 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -267,6 +267,12 @@ inline Dynamic::Dynamic(const il::Array<short> &value) {
   *reinterpret_cast<il::Array<short> **>(&data_) = new il::Array<short>{value};
 }
 
+inline Dynamic::Dynamic(il::Array<short> &&value) {
+  type_ = il::Type::ArrayOfInt16;
+  *reinterpret_cast<il::Array<short> **>(&data_) =
+      new il::Array<short>{std::move(value)};
+}
+
 inline Dynamic::Dynamic(const il::Array<unsigned int> &value) {
   type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
-- 
2.43.0


From f09c1f6f332988a425cd25d5e6a1dc06b7867981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 074/169] fix: Dynamic copies and releases the two-dimensional
 arrays it can hold

---
 il/container/dynamic/Dynamic.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 6a99a92..bcba3b1 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -638,6 +638,15 @@ inline void Dynamic::CopyData(il::Type type, void *p) {
           new il::Array<il::String>{
               *reinterpret_cast<il::Array<il::String> *>(p)};
       break;
+    case il::Type::Array2DOfDouble:
+      *reinterpret_cast<il::Array2D<double> **>(&data_) =
+          new il::Array2D<double>{*reinterpret_cast<il::Array2D<double> *>(p)};
+      break;
+    case il::Type::Array2DOfUInt8:
+      *reinterpret_cast<il::Array2D<unsigned char> **>(&data_) =
+          new il::Array2D<unsigned char>{
+              *reinterpret_cast<il::Array2D<unsigned char> *>(p)};
+      break;
     default:
       IL_UNREACHABLE;
   }
@@ -698,6 +707,9 @@ inline void Dynamic::ReleaseMemory() {
     case il::Type::Array2DOfDouble:
       delete reinterpret_cast<il::Array2D<double> *>(data_);
       break;
+    case il::Type::Array2DOfUInt8:
+      delete reinterpret_cast<il::Array2D<unsigned char> *>(data_);
+      break;
     default:
       IL_UNREACHABLE;
   }
-- 
2.43.0


From 10a0b2fd2feafc7b6ddfd04f80de9a931599f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 075/169] fix: Dynamic can be assigned from itself and from a
 value it holds

---
 il/container/dynamic/Dynamic.h | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index bcba3b1..5b00546 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -496,25 +496,24 @@ inline Dynamic::Dynamic(il::Dynamic &&other) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::Dynamic &other) {
-  if (!isStackAllocated()) {
-    ReleaseMemory();
-  }
-  type_ = other.type_;
-  if (isStackAllocated()) {
-    data_ = other.data_;
-  } else {
-    CopyData(type_, reinterpret_cast<void *>(other.data_));
-  }
+  // The copy is made first as other might be this object or one of the values
+  // it holds
+  *this = il::Dynamic{other};
   return *this;
 }
 
 inline il::Dynamic &Dynamic::operator=(il::Dynamic &&other) {
-  if (!isStackAllocated()) {
-    ReleaseMemory();
+  if (this != &other) {
+    // other might be one of the values held by this object
+    const il::Type type = other.type_;
+    const std::uint64_t data = other.data_;
+    other.type_ = il::Type::Void;
+    if (!isStackAllocated()) {
+      ReleaseMemory();
+    }
+    type_ = type;
+    data_ = data;
   }
-  type_ = other.type_;
-  data_ = other.data_;
-  other.type_ = il::Type::Void;
   return *this;
 }
 
-- 
2.43.0


From ef75a0ed10ace7e0fdd62f2726370c671742b97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 076/169] fix: Dynamic can be assigned from the string it holds

---
 il/container/dynamic/Dynamic.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 5b00546..0b9449d 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -463,20 +463,24 @@ inline il::Dynamic &Dynamic::operator=(double value) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::String &value) {
+  // value might be held by this object
+  il::String *const p = new il::String{value};
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
   type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{value};
+  *reinterpret_cast<il::String **>(&data_) = p;
   return *this;
 }
 
 inline il::Dynamic &Dynamic::operator=(il::String &&value) {
+  // value might be held by this object
+  il::String *const p = new il::String{std::move(value)};
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
   type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{std::move(value)};
+  *reinterpret_cast<il::String **>(&data_) = p;
   return *this;
 }
 
-- 
2.43.0


From 99f5e8e1ceedacda70b0a9fca348b8471c03c1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 077/169] fix: typeId of the small integers a Dynamic can hold

---
 il/container/dynamic/Type.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/il/container/dynamic/Type.h b/il/container/dynamic/Type.h
index 33c6bee..6a54b92 100644
--- a/il/container/dynamic/Type.h
+++ b/il/container/dynamic/Type.h
@@ -222,6 +222,26 @@ inline il::Type typeId<bool>() {
   return il::Type::Bool;
 }
 
+template <>
+inline il::Type typeId<unsigned char>() {
+  return il::Type::UInt8;
+}
+
+template <>
+inline il::Type typeId<signed char>() {
+  return il::Type::Int8;
+}
+
+template <>
+inline il::Type typeId<unsigned short>() {
+  return il::Type::UInt16;
+}
+
+template <>
+inline il::Type typeId<short>() {
+  return il::Type::Int16;
+}
+
 template <>
 inline il::Type typeId<int>() {
   return il::Type::Int;
-- 
2.43.0


From 819caeaec1316ef8437bcd479b0ec636fa43e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 078/169] fix: safeDivision reports its success

---
 il/core/math/safe_arithmetic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 0e68996..45d6f5d 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -123,6 +123,7 @@ inline int safeDivision(int a, int b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -272,6 +273,7 @@ inline long safeDivision(long a, long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -402,6 +404,7 @@ inline long long safeDivision(long long a, long long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
-- 
2.43.0


From 9f422a2e9fbf12b69aa0521ea2068fc380802c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 079/169] fix: safeProduct2Positive reports the overflow of the
 signed product

---
 il/core/math/safe_arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 45d6f5d..4be47d8 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -209,7 +209,7 @@ inline long safeDifference(long a, long b, il::io_t, bool& error) {
 
 inline long safeProduct2Positive(long a, il::io_t, bool& error) {
   const unsigned long ua = static_cast<unsigned long>(a);
-  constexpr unsigned long max = static_cast<unsigned long>(2)
+  constexpr unsigned long max = static_cast<unsigned long>(1)
                                 << (sizeof(unsigned long) * 8 - 2);
   if (ua < max) {
     error = false;
-- 
2.43.0


From 053103f108ed5056c7a5fc9a2a2ebb646bd85b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 080/169] fix: math.h includes the header of the types it uses

---
 il/math.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/math.h b/il/math.h
index fc77d85..0f2df68 100644
--- a/il/math.h
+++ b/il/math.h
@@ -20,6 +20,7 @@
 #define IL_MATH_H
 
 #include <cmath>
+#include <cstdint>
 #include <complex>
 
 #include <il/core.h>
-- 
2.43.0


From d18b45f518d177b35fb3756ec73721c935e95e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 081/169] fix: the maximum of two int is not ambiguous

---
 il/core/core.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/core/core.h b/il/core/core.h
index a85c352..b49a522 100644
--- a/il/core/core.h
+++ b/il/core/core.h
@@ -179,6 +179,9 @@ T max(T a, T b) {
   return a >= b ? a : b;
 }
 
+// The overloads taking one int would otherwise be ambiguous with the one above
+inline int max(int a, int b) { return a >= b ? a : b; }
+
 template <typename T>
 T max(T a, int b) {
   return a >= b ? a : b;
-- 
2.43.0


From c6c2536aea0c517eefc6dd3531beef6d51ad885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 082/169] fix: ipow does not overflow when its result is
 representable

---
 il/math.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/il/math.h b/il/math.h
index 0f2df68..5e9c600 100644
--- a/il/math.h
+++ b/il/math.h
@@ -164,8 +164,10 @@ T ipow(T x, il::int_t n) {
     if (n & 1) {
       ans *= x;
     }
-    x *= x;
     n >>= 1;
+    if (n != 0) {
+      x *= x;
+    }
   }
   return ans;
 }
-- 
2.43.0


From 24e761375a718cf152a4fba2bca8e655fe0bf58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 083/169] fix: floor to a multiple rounds down for negative
 numbers

---
 il/math.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/il/math.h b/il/math.h
index 5e9c600..c5993d2 100644
--- a/il/math.h
+++ b/il/math.h
@@ -103,9 +103,15 @@ inline double abs(std::complex<double> x) {
   return std::sqrt(re * re + im * im);
 }
 
-inline il::int_t floor(il::int_t a, int b) { return (a / b) * b; }
+inline il::int_t floor(il::int_t a, il::int_t b) {
+  const il::int_t r = a % b;
+  return (r != 0 && (r < 0) != (b < 0)) ? (a - r) - b : a - r;
+}
+
+inline il::int_t floor(il::int_t a, int b) {
+  return il::floor(a, static_cast<il::int_t>(b));
+}
 
-inline il::int_t floor(il::int_t a, il::int_t b) { return (a / b) * b; }
 // Template for pow(x,N) where N is a positive il::int_t constant.
 // General case, N is not a power of 2:
 template <bool IsPowerOf2, il::int_t N, typename T>
-- 
2.43.0


From 5381858358808781d0ab899cae71f347af2d4a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 084/169] fix: modulus of a complex number does not overflow
 nor underflow

---
 il/math.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/il/math.h b/il/math.h
index c5993d2..ce58f45 100644
--- a/il/math.h
+++ b/il/math.h
@@ -92,15 +92,11 @@ inline std::complex<double> conjugate(std::complex<double> z) {
 }
 
 inline float abs(std::complex<float> x) {
-  const float re = x.real();
-  const float im = x.imag();
-  return std::sqrt(re * re + im * im);
+  return std::abs(x);
 }
 
 inline double abs(std::complex<double> x) {
-  const double re = x.real();
-  const double im = x.imag();
-  return std::sqrt(re * re + im * im);
+  return std::abs(x);
 }
 
 inline il::int_t floor(il::int_t a, il::int_t b) {
-- 
2.43.0


From e2c3ad8cc3cfd897e5f8c1713e05bdf603990636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 085/169] fix: nextLog2 terminates above the largest power of 2

---
 il/math.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/il/math.h b/il/math.h
index ce58f45..e57c9c4 100644
--- a/il/math.h
+++ b/il/math.h
@@ -242,7 +242,8 @@ inline int nextLog2(std::size_t x) {
   //  return table_log2_64[index];
   std::size_t power = 1;
   int k = 0;
-  while (power < x) {
+  // power is zero when there is no power of 2 larger than x in its type
+  while (power != 0 && power < x) {
     power *= 2;
     k += 1;
   }
@@ -264,7 +265,8 @@ inline int next_log2_32(unsigned int x) {
   //  return table_log2_32[index];
   unsigned int power = 1;
   int k = 0;
-  while (power < x) {
+  // power is zero when there is no power of 2 larger than x in its type
+  while (power != 0 && power < x) {
     power *= 2;
     k += 1;
   }
-- 
2.43.0


From 9c527eb92fe6b19834c2f53c6192fd45896d5eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:43 +0000
Subject: [PATCH 086/169] fix: sobol writes through the mutable pointer

---
 il/random/sobol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/random/sobol.h b/il/random/sobol.h
index 006ee2c..3ec26a4 100644
--- a/il/random/sobol.h
+++ b/il/random/sobol.h
@@ -36,7 +36,7 @@ inline il::Array2C<double> sobol(il::int_t nb_point, il::int_t dim, double a,
   int error_code;
   error_code = vslNewStream(&stream, brng, static_cast<MKL_INT>(dim));
   error_code = vdRngUniform(VSL_RNG_METHOD_UNIFORM_STD, stream, dim * nb_point,
-                            A.data(), a, b);
+                            A.Data(), a, b);
   error_code = vslDeleteStream(&stream);
 
   return A;
-- 
2.43.0


From 6a512aa3841483c316bc11b99f5affb2dfebe968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 087/169] fix: min, max and maxAbs of an array do not truncate
 to an integer

---
 il/algorithm/algorithmArray.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 606ab1c..8cac49c 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -31,7 +31,7 @@ template <typename T>
 T min(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t min_value = v[0];
+  T min_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -44,7 +44,7 @@ template <typename T>
 T min(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t min_value = v[range.begin];
+  T min_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -57,7 +57,7 @@ template <typename T>
 T max(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = v[0];
+  T max_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -70,7 +70,7 @@ template <typename T>
 T max(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = v[range.begin];
+  T max_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -83,7 +83,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = il::abs(v[0]);
+  T max_value = il::abs(v[0]);
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
@@ -96,7 +96,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = il::abs(v[range.begin]);
+  T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = il::abs(v[i]);
-- 
2.43.0


From 4d22294fdd6ecc6a455db54dd918b6eb5c8aa8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 088/169] fix: maxAbs over a range compares absolute values

---
 il/algorithm/algorithmArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 8cac49c..632a33a 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -98,7 +98,7 @@ T maxAbs(const il::Array<T>& v, il::Range range) {
 
   T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
-    if (v[i] > max_value) {
+    if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
     }
   }
-- 
2.43.0


From fea209aed851af8d632f5aedcf3a0e5e3ab7f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 089/169] fix: minMax over a range does not read past its end

---
 il/algorithm/algorithmArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 632a33a..db487e3 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -221,11 +221,11 @@ MinMax<T> minMax(const il::Array<T>& v) {
 
 template <typename T>
 MinMax<T> minMax(const il::Array<T>& v, il::Range range) {
-  IL_EXPECT_FAST(v.size() > 0);
+  IL_EXPECT_FAST(range.begin < range.end);
 
   MinMax<T> ans{};
   ans.min = v[range.begin];
-  ans.max = v[range.end];
+  ans.max = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < ans.min) {
       ans.min = v[i];
-- 
2.43.0


From 74f238e690798e4219ad98bd67b1b643113b7aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 090/169] fix: minMax of a matrix column is one of its elements
 for every type

---
 il/algorithm/algorithmArray2D.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/il/algorithm/algorithmArray2D.h b/il/algorithm/algorithmArray2D.h
index bf36f4d..dd01106 100644
--- a/il/algorithm/algorithmArray2D.h
+++ b/il/algorithm/algorithmArray2D.h
@@ -19,8 +19,6 @@
 #ifndef IL_ALGORITHMARRAY2D_H
 #define IL_ALGORITHMARRAY2D_H
 
-#include <limits>
-
 #include <il/Array2D.h>
 #include <il/algorithmArray.h>
 
@@ -31,9 +29,9 @@ MinMax<T> minMax(const il::Array2D<T>& A, il::Range i0_range, il::int_t i1) {
   IL_EXPECT_FAST(i0_range.begin < i0_range.end);
 
   MinMax<T> ans{};
-  ans.min = std::numeric_limits<T>::max();
-  ans.max = -std::numeric_limits<T>::max();
-  for (il::int_t i0 = i0_range.begin; i0 < i0_range.end; ++i0) {
+  ans.min = A(i0_range.begin, i1);
+  ans.max = A(i0_range.begin, i1);
+  for (il::int_t i0 = i0_range.begin + 1; i0 < i0_range.end; ++i0) {
     if (A(i0, i1) < ans.min) {
       ans.min = A(i0, i1);
     }
-- 
2.43.0


From 7f5566fa5e1f665d645e7538f84389b613ebb3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 091/169] fix: norm of tridiagonal matrices of order 0 and 1

---
 il/linearAlgebra/dense/norm.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/dense/norm.h b/il/linearAlgebra/dense/norm.h
index b3badce..fc9e936 100644
--- a/il/linearAlgebra/dense/norm.h
+++ b/il/linearAlgebra/dense/norm.h
@@ -149,11 +149,15 @@ double norm(const il::TriDiagonal<T>& A, Norm norm_type) {
   switch (norm_type) {
     case Norm::Linf: {
       il::Array<T> sum_row{n};
-      sum_row[0] = il::abs(A(0, 0)) + il::abs(A(0, 1));
-      for (il::int_t i = 1; i < n - 1; ++i) {
-        sum_row[i] = il::abs(A(i, -1)) + il::abs(A(i, 0)) + il::abs(A(i, 1));
+      for (il::int_t i = 0; i < n; ++i) {
+        sum_row[i] = il::abs(A(i, 0));
+        if (i > 0) {
+          sum_row[i] += il::abs(A(i, -1));
+        }
+        if (i < n - 1) {
+          sum_row[i] += il::abs(A(i, 1));
+        }
       }
-      sum_row[n - 1] = il::abs(A(n - 1, -1)) + il::abs(A(n - 1, 0));
       for (il::int_t i = 0; i < sum_row.size(); ++i) {
         ans = il::max(ans, sum_row[i]);
       }
-- 
2.43.0


From 42aa4d4fba78563e27a5f884e28b4e4b4dc42796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 092/169] fix: sorting does not recurse once per equal element

---
 il/algorithm/algorithmArray.h | 116 +++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 51 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index db487e3..214f3aa 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -244,66 +244,80 @@ MinMax<T> minMax(const il::Array<T>& v, il::Range range) {
 
 template <typename T>
 void sort_aux(il::Range range, il::io_t, il::Array<T>& v) {
-  if (range.end - range.begin <= 1) {
-    return;
-  } else if (range.end - range.begin <= 15) {
-    for (il::int_t i = range.begin + 1; i < range.end; ++i) {
-      il::int_t j = i;
-      while (j > 0 && v[j - 1] > v[j]) {
-        const T aux = v[j];
-        v[j] = v[j - 1];
-        v[j - 1] = aux;
-        --j;
+  // The smallest part is sorted recursively and the largest one by this loop so
+  // the depth of the recursion is at most logarithmic
+  while (range.end - range.begin > 15) {
+    // choose the pivot using the median rule
+    const il::int_t i_begin = range.begin;
+    const il::int_t i_end = range.end - 1;
+    const il::int_t i_middle = range.begin + (range.end - range.begin) / 2;
+    il::int_t pivot;
+    if (v[i_begin] < v[i_end]) {
+      if (v[i_middle] < v[i_begin]) {
+        pivot = i_begin;
+      } else {
+        pivot = (v[i_middle] > v[i_end]) ? i_end : i_middle;
       }
-    }
-    return;
-  }
-  // choose the pivot using the median rule
-  const il::int_t i_begin = range.begin;
-  const il::int_t i_end = range.end - 1;
-  const il::int_t i_middle = range.begin + (range.end - range.begin) / 2;
-  il::int_t pivot;
-  if (v[i_begin] < v[i_end]) {
-    if (v[i_middle] < v[i_begin]) {
-      pivot = i_begin;
     } else {
-      pivot = (v[i_middle] > v[i_end]) ? i_end : i_middle;
+      if (v[i_middle] < v[i_end]) {
+        pivot = i_end;
+      } else {
+        pivot = (v[i_begin] < v[i_middle]) ? i_begin : i_middle;
+      }
     }
-  } else {
-    if (v[i_middle] < v[i_end]) {
+    // swap the pivot and the last element so that the pivot is at the end
+    {
+      const T aux = v[i_end];
+      v[i_end] = v[pivot];
+      v[pivot] = aux;
       pivot = i_end;
-    } else {
-      pivot = (v[i_begin] < v[i_middle]) ? i_begin : i_middle;
     }
-  }
-  // swap the pivot and the last element so that the pivot is at the end
-  {
-    const T aux = v[i_end];
-    v[i_end] = v[pivot];
-    v[pivot] = aux;
-    pivot = i_end;
-  }
-  // Partition into 2 parts
-  const T value_pivot = v[pivot];
-  il::int_t j = range.begin;
-  for (il::int_t i = range.begin; i < range.end - 1; ++i) {
-    if (v[i] < value_pivot) {
-      // Swap v[j] and v[i]
-      const T aux = v[i];
-      v[i] = v[j];
+    // Partition into 2 parts
+    const T value_pivot = v[pivot];
+    il::int_t j = range.begin;
+    for (il::int_t i = range.begin; i < range.end - 1; ++i) {
+      if (v[i] < value_pivot) {
+        // Swap v[j] and v[i]
+        const T aux = v[i];
+        v[i] = v[j];
+        v[j] = aux;
+        ++j;
+      }
+    }
+    // Swap the element j and the last element so the pivot is in place
+    {
+      const T aux = v[i_end];
+      v[i_end] = v[j];
       v[j] = aux;
-      ++j;
+    }
+    // Skip the elements that are equal to the pivot
+    il::int_t k = j + 1;
+    for (il::int_t i = j + 1; i < range.end; ++i) {
+      if (!(v[i] > value_pivot)) {
+        const T aux = v[i];
+        v[i] = v[k];
+        v[k] = aux;
+        ++k;
+      }
+    }
+    // Sort the 2 other parts
+    if (j - range.begin < range.end - k) {
+      sort_aux(il::Range{range.begin, j}, il::io, v);
+      range.begin = k;
+    } else {
+      sort_aux(il::Range{k, range.end}, il::io, v);
+      range.end = j;
     }
   }
-  // Swap the element j and the last element so the pivot is in place
-  {
-    const T aux = v[i_end];
-    v[i_end] = v[j];
-    v[j] = aux;
+  for (il::int_t i = range.begin + 1; i < range.end; ++i) {
+    il::int_t j = i;
+    while (j > range.begin && v[j - 1] > v[j]) {
+      const T aux = v[j];
+      v[j] = v[j - 1];
+      v[j - 1] = aux;
+      --j;
+    }
   }
-  // Recursively sort the 2 other parts
-  sort_aux(il::Range{range.begin, j}, il::io, v);
-  sort_aux(il::Range{j + 1, range.end}, il::io, v);
 }
 
 template <typename T>
-- 
2.43.0


From 52a0a88783bf2bb50b0859150296b4bfbc3387a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:05 +0000
Subject: [PATCH 093/169] fix: saving a matrix to a numpy file does not write
 its padding

---
 il/io/numpy/numpy.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index ca34390..ec7c5ee 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -148,13 +148,16 @@ class SaveHelper<il::Array2D<T>> {
       return;
     }
 
-    std::size_t written =
-        std::fwrite(A.data(), sizeof(T),
-                    static_cast<std::size_t>(A.size(0) * A.size(1)), file);
-    if (static_cast<il::int_t>(written) != A.size(0) * A.size(1)) {
-      status.SetError(il::Error::FilesystemCanNotWriteToFile);
-      IL_SET_SOURCE(status);
-      return;
+    // The columns might be separated by some padding
+    for (il::int_t j = 0; j < A.size(1); ++j) {
+      const std::size_t written =
+          std::fwrite(A.data() + j * A.stride(1), sizeof(T),
+                      static_cast<std::size_t>(A.size(0)), file);
+      if (static_cast<il::int_t>(written) != A.size(0)) {
+        status.SetError(il::Error::FilesystemCanNotWriteToFile);
+        IL_SET_SOURCE(status);
+        return;
+      }
     }
 
     const int error = std::fclose(file);
-- 
2.43.0


From ca2075e39d52810c43ebd673908e2bc25afb3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:05 +0000
Subject: [PATCH 094/169] fix: numpy files are closed when they can not be read
 or written

---
 il/io/numpy/numpy.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index ec7c5ee..e52e785 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -86,10 +86,7 @@ class SaveHelper<il::Array<T>> {
     il::Status info_status{};
     il::saveNumpyInfo(numpy_info, il::io, file, info_status);
     if (!info_status.Ok()) {
-      const int error = std::fclose(file);
-      if (error != 0) {
-        il::abort();
-      }
+      std::fclose(file);
       status = std::move(info_status);
       return;
     }
@@ -97,6 +94,7 @@ class SaveHelper<il::Array<T>> {
     std::size_t written = std::fwrite(v.data(), sizeof(T),
                                       static_cast<std::size_t>(v.size()), file);
     if (static_cast<il::int_t>(written) != v.size()) {
+      std::fclose(file);
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
       return;
@@ -140,10 +138,7 @@ class SaveHelper<il::Array2D<T>> {
     il::Status info_status{};
     il::saveNumpyInfo(numpy_info, il::io, file, info_status);
     if (!info_status.Ok()) {
-      const int error = std::fclose(file);
-      if (error != 0) {
-        il::abort();
-      }
+      std::fclose(file);
       status = std::move(info_status);
       return;
     }
@@ -154,6 +149,7 @@ class SaveHelper<il::Array2D<T>> {
           std::fwrite(A.data() + j * A.stride(1), sizeof(T),
                       static_cast<std::size_t>(A.size(0)), file);
       if (static_cast<il::int_t>(written) != A.size(0)) {
+        std::fclose(file);
         status.SetError(il::Error::FilesystemCanNotWriteToFile);
         IL_SET_SOURCE(status);
         return;
@@ -194,15 +190,18 @@ class LoadHelper<il::Array<T>> {
     il::Status info_status{};
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
       return v;
     } else if (numpy_info.shape.size() != 1) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
       return v;
@@ -211,6 +210,7 @@ class LoadHelper<il::Array<T>> {
     v.Resize(numpy_info.shape[0]);
     const std::size_t read = fread(v.Data(), sizeof(T), v.size(), file);
     if (static_cast<il::int_t>(read) != v.size()) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
       return v;
@@ -250,19 +250,23 @@ class LoadHelper<il::Array2D<T>> {
     il::Status info_status{};
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
       return v;
     } else if (numpy_info.shape.size() != 2) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
       return v;
     } else if (!numpy_info.fortran_order) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongEndianness);
       IL_SET_SOURCE(status);
       return v;
@@ -272,6 +276,7 @@ class LoadHelper<il::Array2D<T>> {
     const il::int_t n = v.size(0) * v.size(1);
     const std::size_t read = fread(v.Data(), sizeof(T), n, file);
     if (static_cast<il::int_t>(read) != n) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
       return v;
-- 
2.43.0


From 7bd50fbe5f2b92a7cfd15ba3c48b5530d1ec97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:54 +0000
Subject: [PATCH 095/169] fix: numpy files one may not write can be loaded

---
 il/io/numpy/numpy.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index e52e785..225da98 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -176,10 +176,10 @@ class LoadHelper<il::Array<T>> {
     il::Array<T> v{};
 
 #ifdef IL_UNIX
-    std::FILE* file = std::fopen(filename.asCString(), "r+b");
+    std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
     il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE* file = _wfopen(filename_utf16.asWString(), L"r+b");
+    std::FILE* file = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
     if (!file) {
       status.SetError(il::Error::FilesystemFileNotFound);
@@ -236,10 +236,10 @@ class LoadHelper<il::Array2D<T>> {
     il::Array2D<T> v{};
 
 #ifdef IL_UNIX
-    std::FILE* file = std::fopen(filename.asCString(), "r+b");
+    std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
     il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE* file = _wfopen(filename_utf16.asWString(), L"r+b");
+    std::FILE* file = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
     if (!file) {
       status.SetError(il::Error::FilesystemFileNotFound);
-- 
2.43.0


From 3d5be8db13c16a408bc6dcb687f189fb359b9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:54 +0000
Subject: [PATCH 096/169] fix: malformed numpy headers are reported

---
 il/io/numpy/numpy.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index bfa155d..6cb8665 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -50,8 +50,9 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   }
   char major_version = buffer[6];
   char minor_version = buffer[7];
-  unsigned short header_length =
-      *reinterpret_cast<unsigned short*>(first_buffer + 8);
+  const il::int_t header_length =
+      static_cast<unsigned char>(first_buffer[8]) +
+      256 * static_cast<unsigned char>(first_buffer[9]);
   if (major_version != 1 || minor_version != 0) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
@@ -60,11 +61,14 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
 
   // Read the header
   //
-  il::Array<char> second_buffer{header_length + 1};
+  il::Array<char> second_buffer{header_length + 1, '\0'};
   StringView header =
-      StringView{il::StringType::Byte, second_buffer.Data(), header_length + 1};
-  char* success = fgets(second_buffer.Data(), header_length + 1, fp);
-  if (success == nullptr || !(header[header.size() - 2] == '\n')) {
+      StringView{il::StringType::Byte, second_buffer.Data(), header_length};
+  const std::size_t header_read =
+      fread(second_buffer.Data(), sizeof(char),
+            static_cast<std::size_t>(header_length), fp);
+  if (static_cast<il::int_t>(header_read) != header_length ||
+      header_length == 0 || header[header_length - 1] != '\n') {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
     return numpy_info;
@@ -87,6 +91,11 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
 
   StringView type_string = header.subview(i4 + 10, header.size());
   const il::int_t i5 = il::search("'", type_string);
+  if (i5 == -1) {
+    status.SetError(il::Error::BinaryFileWrongFormat);
+    IL_SET_SOURCE(status);
+    return numpy_info;
+  }
   numpy_info.type = il::String{il::StringType::Byte, type_string.data(), i5};
 
   // Read the ordering for multidimensional arrays
@@ -100,6 +109,11 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
 
   StringView fortran_order_string = header.subview(i0 + 16, i0 + 20);
   numpy_info.fortran_order = (fortran_order_string == "True") ? true : false;
+  if (!numpy_info.fortran_order && !(fortran_order_string == "Fals")) {
+    status.SetError(il::Error::BinaryFileWrongFormat);
+    IL_SET_SOURCE(status);
+    return numpy_info;
+  }
 
   // Read the dimensions
   //
-- 
2.43.0


From ebfe666a2251af9a79ecb8e5ec299972c3a8f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 097/169] fix: the shape of a numpy file is parsed, not guessed

---
 il/io/numpy/numpy.cpp | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index 6cb8665..dca02e6 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -18,6 +18,8 @@
 
 #include <il/io/numpy/numpy.h>
 
+#include <limits>
+
 #include <il/String.h>
 #include <il/container/string/algorithmString.h>
 
@@ -124,21 +126,32 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
     IL_SET_SOURCE(status);
     return numpy_info;
   }
-  StringView shape_string = header.subview(i1 + 1, i2);
-  if (shape_string.back(0) == ',') {
-    numpy_info.shape.Resize(1);
-  } else {
-    const il::int_t n_dim = il::count(',', shape_string) + 1;
-    numpy_info.shape.Resize(n_dim);
-  }
-  il::int_t i = 0;
-  while (true) {
-    numpy_info.shape[i] = std::atoll(shape_string.asCString());
-    if (i == numpy_info.shape.size() - 1) {
+  const il::int_t max_extent = std::numeric_limits<il::int_t>::max();
+  il::int_t i = i1 + 1;
+  while (i < i2) {
+    while (i < i2 && header[i] == ' ') {
+      ++i;
+    }
+    if (i == i2 && numpy_info.shape.size() > 0) {
       break;
     }
-    const il::int_t i3 = il::search(",", shape_string);
-    shape_string = shape_string.subview(i3 + 1, shape_string.size());
+    il::int_t extent = 0;
+    const il::int_t i_begin = i;
+    while (i < i2 && header[i] >= '0' && header[i] <= '9' &&
+           extent <= (max_extent - 9) / 10) {
+      extent = 10 * extent + (header[i] - '0');
+      ++i;
+    }
+    const bool no_digit = i == i_begin;
+    while (i < i2 && header[i] == ' ') {
+      ++i;
+    }
+    if (no_digit || (i < i2 && header[i] != ',')) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return numpy_info;
+    }
+    numpy_info.shape.Append(extent);
     ++i;
   }
 
-- 
2.43.0


From 9673a82c15c5fd4f17601e2c27021b3ef50f0827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 098/169] fix: loading a numpy file does not allocate more than
 the file holds

---
 il/io/numpy/numpy.cpp | 25 +++++++++++++++++++++++++
 il/io/numpy/numpy.h   | 17 +++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index dca02e6..6e46335 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -159,6 +159,31 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   return numpy_info;
 }
 
+bool numpyDataIsPresent(const NumpyInfo& numpy_info, il::int_t element_size,
+                        il::io_t, std::FILE* fp) {
+  const long position = std::ftell(fp);
+  if (position == -1 || std::fseek(fp, 0, SEEK_END) != 0) {
+    return false;
+  }
+  const long end = std::ftell(fp);
+  if (end == -1 || std::fseek(fp, position, SEEK_SET) != 0) {
+    return false;
+  }
+  bool is_empty = false;
+  for (il::int_t i = 0; i < numpy_info.shape.size(); ++i) {
+    is_empty = is_empty || numpy_info.shape[i] == 0;
+  }
+  // An empty array does not need any data, but memory is still allocated for
+  // its other extents
+  il::int_t room = is_empty
+                       ? (il::int_t{1} << 28)
+                       : static_cast<il::int_t>(end - position) / element_size;
+  for (il::int_t i = 0; i < numpy_info.shape.size(); ++i) {
+    room /= numpy_info.shape[i] > 0 ? numpy_info.shape[i] : 1;
+  }
+  return room >= 1;
+}
+
 void saveNumpyInfo(const NumpyInfo& numpy_info, il::io_t, std::FILE* fp,
                    il::Status& status) {
   il::String header{};
diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 225da98..fc5a3e4 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -57,6 +57,9 @@ struct NumpyInfo {
 };
 
 NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status);
+// True if what is left to read in the file can hold the array described
+bool numpyDataIsPresent(const NumpyInfo& numpy_info, il::int_t element_size,
+                        il::io_t, std::FILE* fp);
 void saveNumpyInfo(const NumpyInfo& numpy_info, il::io_t, std::FILE* fp,
                    il::Status& status);
 
@@ -207,6 +210,13 @@ class LoadHelper<il::Array<T>> {
       return v;
     }
 
+    if (!il::numpyDataIsPresent(numpy_info, sizeof(T), il::io, file)) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
     v.Resize(numpy_info.shape[0]);
     const std::size_t read = fread(v.Data(), sizeof(T), v.size(), file);
     if (static_cast<il::int_t>(read) != v.size()) {
@@ -272,6 +282,13 @@ class LoadHelper<il::Array2D<T>> {
       return v;
     }
 
+    if (!il::numpyDataIsPresent(numpy_info, sizeof(T), il::io, file)) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
     v.Resize(numpy_info.shape[0], numpy_info.shape[1]);
     const il::int_t n = v.size(0) * v.size(1);
     const std::size_t read = fread(v.Data(), sizeof(T), n, file);
-- 
2.43.0


From 5c0d91e2d9f0a005954bf4954205c950878e8b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 099/169] fix: arrays of long, long long and float have a numpy
 type

---
 il/io/numpy/numpy.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index fc5a3e4..c06de3d 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -45,6 +45,21 @@ struct numpyType<int> {
   static constexpr const char* value = "i4";
 };
 
+template <>
+struct numpyType<long> {
+  static constexpr const char* value = (sizeof(long) == 8) ? "i8" : "i4";
+};
+
+template <>
+struct numpyType<long long> {
+  static constexpr const char* value = "i8";
+};
+
+template <>
+struct numpyType<float> {
+  static constexpr const char* value = "f4";
+};
+
 template <>
 struct numpyType<double> {
   static constexpr const char* value = "f8";
-- 
2.43.0


From 15a71c9fb80e6b9dfce4f6b5af7e36883f94ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 100/169] fix: loading a sparse matrix reads its files and
 reports what is wrong

---
 il/io/numpy/numpy.h | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index c06de3d..c2d49fd 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -335,23 +335,46 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
     il::Status local_status{};
     il::String filename_row = filename;
     filename_row.Append(".row");
-    auto row =
-        il::load<il::Array<il::int_t>>(filename_row, il::io, local_status);
-    local_status.AbortOnError();
+    auto row = il::LoadHelper<il::Array<il::int_t>>::load(
+        filename_row, il::io, local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     il::String filename_column = filename;
     filename_column.Append(".column");
-    auto column =
-        il::load<il::Array<il::int_t>>(filename_column, il::io, local_status);
-    local_status.AbortOnError();
+    auto column = il::LoadHelper<il::Array<il::int_t>>::load(
+        filename_column, il::io, local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     il::String filename_element = filename;
     filename_element.Append(".element");
-    auto element =
-        il::load<il::Array<double>>(filename_element, il::io, local_status);
-    local_status.AbortOnError();
+    auto element = il::LoadHelper<il::Array<double>>::load(
+        filename_element, il::io, local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     const il::int_t n = row.size() - 1;
+    bool valid = n >= 0 && column.size() == element.size() && row[0] == 0 &&
+                 row[n] == column.size();
+    for (il::int_t i = 0; valid && i < n; ++i) {
+      valid = row[i] <= row[i + 1];
+    }
+    for (il::int_t k = 0; valid && k < column.size(); ++k) {
+      valid = column[k] >= 0 && column[k] < n;
+    }
+    if (!valid) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
+
     status.SetOk();
     return il::SparseMatrixCSR<il::int_t, double>{
         n, n, std::move(column), std::move(row), std::move(element)};
-- 
2.43.0


From 6158a29da9578aeaf1225ca7c73315f336a802f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 101/169] fix: configuration lines of any length are read

---
 il/io/toml/toml.cpp | 20 ++++++++++++++------
 il/io/toml/toml.h   |  4 ++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 04dab1a..c9076f7 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -23,20 +23,29 @@ namespace il {
 
 TomlParser::TomlParser() {}
 
+bool TomlParser::readLine(il::io_t, il::StringView& line) {
+  buffer_line_.Resize(0);
+  int c = '\0';
+  while (c != '\n' && (c = std::getc(file_)) != EOF) {
+    buffer_line_.Append(static_cast<char>(c));
+  }
+  line = il::StringView{il::StringType::Byte, buffer_line_.data(),
+                        buffer_line_.size()};
+  return buffer_line_.size() > 0;
+}
+
 il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
                                                      il::io_t,
                                                      il::Status& status) {
   string.trimPrefix();
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
-    const char* error = std::fgets(buffer_line_, max_line_length_ + 1, file_);
-    if (error == nullptr) {
+    if (!readLine(il::io, string)) {
       IL_SET_SOURCE(status);
       status.SetError(il::Error::ParseUnclosedArray);
       status.SetInfo("line", line_number_);
       return string;
     }
     ++line_number_;
-    string = il::StringView{buffer_line_};
     string.trimPrefix();
   }
 
@@ -934,11 +943,10 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   }
 
   line_number_ = 0;
-  while (std::fgets(buffer_line_, max_line_length_ + 1, file_) != nullptr) {
+  il::StringView line{};
+  while (readLine(il::io, line)) {
     ++line_number_;
 
-    il::StringView line{il::StringType::Byte, buffer_line_,
-                        il::size(buffer_line_)};
     line = il::removeWhitespaceLeft(line);
 
     if (line.isEmpty() || line.startsWithNewLine() || line[0] == '#') {
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index bb8d1ff..c2b9b82 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -38,8 +38,7 @@ namespace il {
 
 class TomlParser {
  private:
-  static const il::int_t max_line_length_ = 200;
-  char buffer_line_[max_line_length_ + 1];
+  il::Array<char> buffer_line_;
   il::int_t line_number_;
   std::FILE *file_;
 
@@ -84,6 +83,7 @@ class TomlParser {
   il::Dynamic parseString(il::io_t, il::StringView &string, il::Status &status);
 
  private:
+  bool readLine(il::io_t, il::StringView &line);
   static bool containsDigit(char c);
 };
 
-- 
2.43.0


From 340953c89197178523ee957266996dac39a2c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 102/169] fix: configuration files are closed and can be
 read-only, reading errors are reported

---
 il/io/toml/toml.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index c9076f7..f4d0872 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -931,10 +931,10 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   il::MapArray<il::String, il::Dynamic>* pointer_toml = &root_toml;
 
 #ifdef IL_UNIX
-  file_ = std::fopen(filename.asCString(), "r+b");
+  file_ = std::fopen(filename.asCString(), "rb");
 #else
   il::UTF16String filename_utf16 = il::toUtf16(filename);
-  file_ = _wfopen(filename_utf16.asWString(), L"r+b");
+  file_ = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
   if (!file_) {
     status.SetError(il::Error::FilesystemFileNotFound);
@@ -973,11 +973,19 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
       checkEndOfLineOrComment(line, il::io, parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
+        std::fclose(file_);
         return root_toml;
       }
     }
   }
 
+  if (std::ferror(file_)) {
+    status.SetError(il::Error::FilesystemNoReadAccess);
+    IL_SET_SOURCE(status);
+    std::fclose(file_);
+    return root_toml;
+  }
+
   const int error = std::fclose(file_);
   if (error != 0) {
     status.SetError(il::Error::FilesystemCanNotCloseFile);
-- 
2.43.0


From 111f45fe2779104214db8f749b403341fbae503f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 103/169] fix: configuration numbers: zero before any
 delimiter, underscores, overflow

---
 il/io/toml/toml.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index f4d0872..5063ad5 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -16,6 +16,9 @@
 //
 //==============================================================================
 
+#include <cerrno>
+#include <cstdlib>
+
 #include <il/container/string/algorithmString.h>
 #include <il/io/toml/toml.h>
 
@@ -142,8 +145,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
 
   // Check that there is no leading 0
   if (i + 1 < string.size() && string[i] == '0' &&
-      !(string[i + 1] == '.' || string[i + 1] == ' ' ||
-        string.hasNewLine(i + 1))) {
+      (string.hasDigit(i + 1) || string[i + 1] == '_')) {
     status.SetError(il::Error::ParseNumber);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
@@ -156,7 +158,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
     ++i;
     if (i < string.size() && string[i] == '_') {
       ++i;
-      if (i == string.size() || (!string.hasDigit(i + 1))) {
+      if (i == string.size() || (!string.hasDigit(i))) {
         status.SetError(il::Error::ParseNumber);
         IL_SET_SOURCE(status);
         status.SetInfo("line", line_number_);
@@ -239,17 +241,22 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
       number.Append(string[j]);
     }
   }
-  il::StringView view{il::StringType::Byte, number.data(), i};
-
   if (is_float) {
     status.SetOk();
     string.removePrefix(i);
-    double x = std::atof(view.asCString());
+    double x = std::atof(number.asCString());
     return il::Dynamic{x};
   } else {
+    errno = 0;
+    il::int_t n = std::strtoll(number.asCString(), nullptr, 10);
+    if (errno == ERANGE) {
+      status.SetError(il::Error::ParseIntegerOverflow);
+      IL_SET_SOURCE(status);
+      status.SetInfo("line", line_number_);
+      return il::Dynamic{};
+    }
     status.SetOk();
     string.removePrefix(i);
-    il::int_t n = std::atoll(view.asCString());
     return il::Dynamic{n};
   }
 }
-- 
2.43.0


From c3933a436d528773af181ae684a0abc92e4c3526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 104/169] fix: configuration strings that are not valid UTF-8
 are reported

---
 il/io/toml/toml.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 5063ad5..264a561 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -298,9 +298,21 @@ il::String TomlParser::parseStringLiteral(char delimiter, il::io_t,
       status.SetOk();
       return ans;
     } else {
-      // TODO: I am not sure what will happen with a Unicode string
-      ans.Append(string.rune(0));
-      string.removePrefix(string.nextRune(0));
+      il::int_t i = 1;
+      while (i < string.size() && string[i] != delimiter &&
+             string[i] != '\\') {
+        ++i;
+      }
+      if (!il::isUtf8(string.data(), i)) {
+        status.SetError(il::Error::ParseString);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return ans;
+      }
+      ans.Append(il::isAscii(string.data(), i) ? il::StringType::Ascii
+                                               : il::StringType::Utf8,
+                 string.data(), i);
+      string.removePrefix(i);
     }
   }
 
-- 
2.43.0


From 740195225969f2dc9b7e0a7ae2b6739ef2de43d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 105/169] fix: configuration arrays hold nested arrays on
 several lines, tables, and numbers with an exponent

---
 il/io/toml/toml.cpp | 87 ++++-----------------------------------------
 il/io/toml/toml.h   |  6 ++--
 2 files changed, 9 insertions(+), 84 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 264a561..6a82820 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -398,50 +398,16 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
     return ans;
   }
 
-  il::int_t i = 0;
-  while (i < string.size() && (string[i] != ',') && (string[i] != ']') &&
-         (string[i] != '#')) {
-    ++i;
-  }
-  il::StringView value_string = string.subview(0, i);
-  il::Type value_type = parseType(value_string, il::io, parse_status);
+  ans = parseValueArray(il::io, string, parse_status);
   if (!parse_status.Ok()) {
     status = std::move(parse_status);
     return ans;
   }
-
-  switch (value_type) {
-    case il::Type::Void:
-    case il::Type::Bool:
-    case il::Type::Integer:
-    case il::Type::Double:
-    case il::Type::UnicodeString: {
-      ans = parseValueArray(value_type, il::io, string, parse_status);
-      if (!parse_status.Ok()) {
-        status = std::move(parse_status);
-        return ans;
-      }
-      status.SetOk();
-      return ans;
-    } break;
-    case il::Type::ArrayOfDynamic: {
-      ans = parseObjectArray(il::Type::ArrayOfDynamic, '[', il::io, string,
-                             parse_status);
-      if (!parse_status.Ok()) {
-        status = std::move(parse_status);
-        return ans;
-      }
-      status.SetOk();
-      return ans;
-    }
-    default:
-      il::abort();
-      return ans;
-  }
+  status.SetOk();
+  return ans;
 }
 
-il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
-                                        il::StringView& string,
+il::Dynamic TomlParser::parseValueArray(il::io_t, il::StringView& string,
                                         il::Status& status) {
   il::Dynamic ans{il::Array<il::Dynamic>{}};
   il::Array<il::Dynamic>& array = ans.As<il::Array<il::Dynamic>>();
@@ -454,8 +420,8 @@ il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
       return ans;
     }
 
-    if (value.type() == value_type) {
-      array.Append(value);
+    if (array.size() == 0 || value.type() == array[0].type()) {
+      array.Append(std::move(value));
     } else {
       status.SetError(il::Error::ParseHeterogeneousArray);
       IL_SET_SOURCE(status);
@@ -481,46 +447,7 @@ il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
     }
   }
 
-  if (!string.isEmpty()) {
-    string.removePrefix(1);
-  }
-
-  status.SetOk();
-  return ans;
-}
-
-il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
-                                         il::io_t, il::StringView& string,
-                                         il::Status& status) {
-  il::Dynamic ans{il::Array<il::Dynamic>{}};
-  il::Array<il::Dynamic>& array = ans.As<il::Array<il::Dynamic>>();
-  il::Status parse_status{};
-
-  while (!string.isEmpty() && (string[0] != ']')) {
-    if (string[0] != delimiter) {
-      status.SetError(il::Error::ParseArray);
-      IL_SET_SOURCE(status);
-      status.SetInfo("line", line_number_);
-      return ans;
-    }
-
-    if (object_type == il::Type::ArrayOfDynamic) {
-      array.Append(parseArray(il::io, string, parse_status));
-      if (!parse_status.Ok()) {
-        status = std::move(parse_status);
-        return ans;
-      }
-    } else {
-      il::abort();
-    }
-
-    string = il::removeWhitespaceLeft(string);
-    if (string.isEmpty() || (string[0] != ',')) {
-      break;
-    }
-    string.removePrefix(1);
-    string = il::removeWhitespaceLeft(string);
-  }
+  // The end of the array should be there
 
   if (string.isEmpty() || (string[0] != ']')) {
     status.SetError(il::Error::ParseArray);
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index c2b9b82..d7cda10 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -50,10 +50,8 @@ class TomlParser {
                                            il::Status &status);
   il::Dynamic parseValue(il::io_t, il::StringView &string, il::Status &status);
   il::Dynamic parseArray(il::io_t, il::StringView &string, il::Status &status);
-  il::Dynamic parseValueArray(il::Type value_type, il::io_t,
-                              il::StringView &string, il::Status &status);
-  il::Dynamic parseObjectArray(il::Type object_type, char delimiter, il::io_t,
-                               il::StringView &string, il::Status &status);
+  il::Dynamic parseValueArray(il::io_t, il::StringView &string,
+                              il::Status &status);
   il::Dynamic parseInlineTable(il::io_t, il::StringView &string,
                                il::Status &status);
   void parseKeyValue(il::io_t, il::StringView &string,
-- 
2.43.0


From 8afe6d67496f92b9bfd693a85da24238008cd9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 106/169] fix: configuration keys between single quotes, keys
 that end with the file

---
 il/io/toml/toml.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 6a82820..ab69749 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -540,23 +540,28 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
 
   il::String key{};
   string = il::removeWhitespaceLeft(string);
-  IL_EXPECT_FAST(string.size() > 0);
+  if (string.isEmpty()) {
+    status.SetError(il::Error::ParseKey);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return key;
+  }
 
-  il::Status parse_status{};
-  if (string[0] == '"') {
-    //////////////////////////
-    // We have a key in a ".."
-    //////////////////////////
+  if (string[0] == '"' || string[0] == '\'') {
+    ////////////////////////////////////
+    // We have a key in a ".." or a '..'
+    ////////////////////////////////////
+    const char delimiter = string[0];
     string.removePrefix(1);
     while (string.size() > 0) {
-      if (string[0] == '\\') {
+      if (delimiter == '"' && string[0] == '\\') {
         il::Status parse_status{};
         key.Append(parseEscapeCode(il::io, string, parse_status));
         if (!parse_status.Ok()) {
           status = std::move(parse_status);
           return key;
         }
-      } else if (string[0] == '"') {
+      } else if (string[0] == delimiter) {
         string.removePrefix(1);
         string = il::removeWhitespaceLeft(string);
         status.SetOk();
@@ -572,13 +577,10 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
     status.SetInfo("line", line_number_);
     return key;
   } else {
-    /////////////////////////////////////
-    // We have a bare key: '..' or ->..<-
-    /////////////////////////////////////
+    /////////////////////////////
+    // We have a bare key: ->..<-
+    /////////////////////////////
     // Search for the end of the key and move back to drop the whitespaces
-    if (string[0] == '\'') {
-      string.removePrefix(1);
-    }
     il::int_t j = 0;
     if (end != '@') {
       while (j < string.size() && (string[j] != end)) {
-- 
2.43.0


From ba6aa0829104490a14074e3276f3ffeda0459633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 107/169] fix: configuration inline tables may be empty or end
 with the file

---
 il/io/toml/toml.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index ab69749..dce5a72 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -472,6 +472,10 @@ il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
       return ans;
     }
     string = il::removeWhitespaceLeft(string);
+    if (!string.isEmpty() && string[0] == '}' &&
+        ans.as<il::MapArray<il::String, il::Dynamic>>().size() == 0) {
+      break;
+    }
     il::Status parse_status{};
     parseKeyValue(il::io, string,
                   ans.As<il::MapArray<il::String, il::Dynamic>>(),
@@ -481,7 +485,7 @@ il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
       return ans;
     }
     string = il::removeWhitespaceLeft(string);
-  } while (string[0] == ',');
+  } while (!string.isEmpty() && string[0] == ',');
 
   if (string.isEmpty() || (string[0] != '}')) {
     status.SetError(il::Error::ParseTable);
-- 
2.43.0


From 150c861b1481bc16155d87f416a7b7a0b83657e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:09 +0000
Subject: [PATCH 108/169] fix: configuration keys between quotes may hold any
 valid text

---
 il/io/toml/toml.cpp | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index dce5a72..b10f3d9 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -447,8 +447,6 @@ il::Dynamic TomlParser::parseValueArray(il::io_t, il::StringView& string,
     }
   }
 
-  // The end of the array should be there
-
   if (string.isEmpty() || (string[0] != ']')) {
     status.SetError(il::Error::ParseArray);
     IL_SET_SOURCE(status);
@@ -556,29 +554,13 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
     // We have a key in a ".." or a '..'
     ////////////////////////////////////
     const char delimiter = string[0];
-    string.removePrefix(1);
-    while (string.size() > 0) {
-      if (delimiter == '"' && string[0] == '\\') {
-        il::Status parse_status{};
-        key.Append(parseEscapeCode(il::io, string, parse_status));
-        if (!parse_status.Ok()) {
-          status = std::move(parse_status);
-          return key;
-        }
-      } else if (string[0] == delimiter) {
-        string.removePrefix(1);
-        string = il::removeWhitespaceLeft(string);
-        status.SetOk();
-        return key;
-      } else {
-        // Check what's going on with unicode
-        key.Append(string[0]);
-        string.removePrefix(1);
-      }
+    il::Status parse_status{};
+    key = parseStringLiteral(delimiter, il::io, string, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      return key;
     }
-    status.SetError(il::Error::ParseString);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
+    status.SetOk();
     return key;
   } else {
     /////////////////////////////
-- 
2.43.0


From 92dc40f17282e70df6bb40f8e5fe92e6bfaf2c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:40 +0000
Subject: [PATCH 109/169] fix: configuration tables: nested arrays of tables,
 redefinitions and malformed headers

---
 il/io/toml/toml.cpp | 205 +++++++++++++++-----------------------------
 il/io/toml/toml.h   |  10 +++
 2 files changed, 78 insertions(+), 137 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index b10f3d9..e16446b 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -692,171 +692,101 @@ void TomlParser::parseTable(il::io_t, il::StringView& string,
 void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
                                   il::MapArray<il::String, il::Dynamic>*& toml,
                                   il::Status& status) {
-  if (string.isEmpty() || string[0] == ']') {
-    status.SetError(il::Error::ParseTable);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
-  }
+  parseTableName(false, il::io, string, toml, status);
+}
 
-  il::String full_table_name{};
-  bool inserted = false;
-  while (!string.isEmpty() && (string[0] != ']')) {
+void TomlParser::parseTableArray(il::io_t, il::StringView& string,
+                                 il::MapArray<il::String, il::Dynamic>*& toml,
+                                 il::Status& status) {
+  string.removePrefix(1);
+  parseTableName(true, il::io, string, toml, status);
+}
+
+void TomlParser::parseTableName(bool is_array, il::io_t,
+                                il::StringView& string,
+                                il::MapArray<il::String, il::Dynamic>*& toml,
+                                il::Status& status) {
+  // Path of the table from the root, the names being preceded by their length
+  il::String path{};
+  for (il::int_t depth = 0;; ++depth) {
     il::Status parse_status{};
     il::String table_name = parseKey('@', il::io, string, parse_status);
     if (!parse_status.Ok()) {
       status = std::move(parse_status);
       return;
     }
-    if (table_name.isEmpty()) {
-      status.SetError(il::Error::ParseTable);
+    path.Append(il::toString(table_name.size()));
+    path.Append(':');
+    path.Append(table_name);
+
+    string = il::removeWhitespaceLeft(string);
+    const bool is_last = string.isEmpty() || string[0] != '.';
+    const bool is_new = !toml->found(toml->search(table_name));
+    const il::spot_t k = tables_.search(path);
+    // A key or a table that has not been defined by a header can't be extended
+    bool error = (!is_new && !tables_.found(k)) || depth == max_depth_;
+    if (!error && is_last && is_array) {
+      // All the tables of the array should have been defined by [[...]]
+      error = !is_new && tables_.value(k) != TableKind::Array;
+    } else if (!error && is_last) {
+      // The table might have been defined by one of its children
+      error = !is_new && tables_.value(k) != TableKind::Implicit;
+    }
+    if (error) {
+      status.SetError(depth == max_depth_ ? il::Error::ParseTable
+                                          : il::Error::ParseDuplicateKey);
       IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return;
     }
-    if (!full_table_name.isEmpty()) {
-      full_table_name.Append('.');
-    }
-    full_table_name.Append(table_name);
-
-    il::spot_t i = toml->search(table_name);
-    if (toml->found(i)) {
-      if (toml->value(i).is<il::MapArray<il::String, il::Dynamic>>()) {
-        toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
-      } else if (toml->value(i).is<il::Array<il::Dynamic>>()) {
-        if (toml->value(i).as<il::Array<il::Dynamic>>().size() > 0 &&
-            toml->value(i)
-                .as<il::Array<il::Dynamic>>()
-                .back()
-                .is<il::MapArray<il::String, il::Dynamic>>()) {
-          toml = &(toml->Value(i)
-                       .As<il::Array<il::Dynamic>>()
-                       .Back()
-                       .As<il::MapArray<il::String, il::Dynamic>>());
-        } else {
-          status.SetError(il::Error::ParseDuplicateKey);
-          IL_SET_SOURCE(status);
-          status.SetInfo("line", line_number_);
-          return;
-        }
+
+    if (is_new) {
+      if (is_last && is_array) {
+        toml->Set(table_name, il::Dynamic{il::Array<il::Dynamic>{}});
       } else {
-        status.SetError(il::Error::ParseDuplicateKey);
-        IL_SET_SOURCE(status);
-        status.SetInfo("line", line_number_);
-        return;
+        toml->Set(table_name,
+                  il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
+      }
+    }
+    if (!is_last) {
+      if (is_new) {
+        tables_.Set(path, TableKind::Implicit);
       }
     } else {
-      inserted = true;
-      toml->Set(table_name,
-                il::Dynamic{il::MapArray<il::String, il::Dynamic>{}}, il::io,
-                i);
-      toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
+      tables_.Set(path, is_array ? TableKind::Array : TableKind::Explicit);
     }
 
-    string = il::removeWhitespaceLeft(string);
-    while (!string.isEmpty() && string[0] == '.') {
-      string.removePrefix(1);
+    il::Dynamic& value = toml->Value(toml->search(table_name));
+    if (value.is<il::Array<il::Dynamic>>()) {
+      il::Array<il::Dynamic>& array = value.As<il::Array<il::Dynamic>>();
+      if (is_last) {
+        array.Append(il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
+      }
+      path.Append(il::toString(array.size()));
+      path.Append('/');
+      toml = &(array.Back().As<il::MapArray<il::String, il::Dynamic>>());
+    } else {
+      toml = &(value.As<il::MapArray<il::String, il::Dynamic>>());
     }
-    string = il::removeWhitespaceLeft(string);
-  }
 
-  // TODO: One should check the redefinition of a table (line 1680)
-  IL_UNUSED(inserted);
-
-  string.removePrefix(1);
-  string = il::removeWhitespaceLeft(string);
-  if (!string.isEmpty() && (string[0] != '\n') && (string[0] != '#')) {
-    il::abort();
-  }
-  status.SetOk();
-}
-
-void TomlParser::parseTableArray(il::io_t, il::StringView& string,
-                                 il::MapArray<il::String, il::Dynamic>*& toml,
-                                 il::Status& status) {
-  string.removePrefix(1);
-  if (string.isEmpty() || string[0] == ']') {
-    status.SetError(il::Error::ParseTable);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
-    return;
+    if (is_last) {
+      break;
+    }
+    string.removePrefix(1);
   }
 
-  il::String full_table_name{};
-  while (!string.isEmpty() && (string[0] != ']')) {
-    il::Status parse_status{};
-    il::String table_name = parseKey('@', il::io, string, parse_status);
-    if (!parse_status.Ok()) {
-      status = std::move(parse_status);
-      return;
-    }
-    if (table_name.isEmpty()) {
+  for (il::int_t i = 0; i < (is_array ? 2 : 1); ++i) {
+    if (string.isEmpty() || string[0] != ']') {
       status.SetError(il::Error::ParseTable);
       IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return;
     }
-    if (!full_table_name.isEmpty()) {
-      full_table_name.Append('.');
-    }
-    full_table_name.Append(table_name);
-
-    string = il::removeWhitespaceLeft(string);
-    il::spot_t i = toml->search(table_name);
-    if (toml->found(i)) {
-      il::Dynamic& b = toml->Value(i);
-      if (!string.isEmpty() && string[0] == ']') {
-        if (!b.is<il::Array<il::Dynamic>>()) {
-          status.SetError(il::Error::ParseTable);
-          IL_SET_SOURCE(status);
-          status.SetInfo("line", line_number_);
-          return;
-        }
-        il::Array<il::Dynamic>& v = b.As<il::Array<il::Dynamic>>();
-        v.Append(il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
-        toml = &(v.Back().As<il::MapArray<il::String, il::Dynamic>>());
-      }
-    } else {
-      if (!string.isEmpty() && string[0] == ']') {
-        toml->Set(table_name, il::Dynamic{il::Array<il::Dynamic>{}}, il::io, i);
-        toml->Value(i).As<il::Array<il::Dynamic>>().Append(
-            il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
-        toml = &(toml->Value(i)
-                     .As<il::Array<il::Dynamic>>()[0]
-                     .As<il::MapArray<il::String, il::Dynamic>>());
-      } else {
-        toml->Set(table_name,
-                  il::Dynamic{il::MapArray<il::String, il::Dynamic>{}}, il::io,
-                  i);
-        toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
-      }
-    }
-  }
-
-  if (string.isEmpty()) {
-    status.SetError(il::Error::ParseTable);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
-    return;
-  }
-  string.removePrefix(1);
-  if (string.isEmpty()) {
-    status.SetError(il::Error::ParseTable);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
-    return;
+    string.removePrefix(1);
   }
-  string.removePrefix(1);
 
   string = il::removeWhitespaceLeft(string);
-  il::Status parse_status{};
-  checkEndOfLineOrComment(string, il::io, parse_status);
-  if (!parse_status.Ok()) {
-    status = std::move(parse_status);
-    return;
-  }
-
-  status.SetOk();
-  return;
+  checkEndOfLineOrComment(string, il::io, status);
 }
 
 il::MapArray<il::String, il::Dynamic> TomlParser::parse(
@@ -877,6 +807,7 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   }
 
   line_number_ = 0;
+  tables_ = il::Map<il::String, TableKind>{};
   il::StringView line{};
   while (readLine(il::io, line)) {
     ++line_number_;
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index d7cda10..90583f8 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -38,7 +38,14 @@ namespace il {
 
 class TomlParser {
  private:
+  // How a table has been defined: by a header such as [a.b] which needs the
+  // table a, by its own header, or by a header such as [[a]]
+  enum class TableKind { Implicit, Explicit, Array };
+
+  // Tables can't be nested deeper
+  static const il::int_t max_depth_ = 200;
   il::Array<char> buffer_line_;
+  il::Map<il::String, TableKind> tables_;
   il::int_t line_number_;
   std::FILE *file_;
 
@@ -81,6 +88,9 @@ class TomlParser {
   il::Dynamic parseString(il::io_t, il::StringView &string, il::Status &status);
 
  private:
+  void parseTableName(bool is_array, il::io_t, il::StringView &string,
+                      il::MapArray<il::String, il::Dynamic> *&toml,
+                      il::Status &status);
   bool readLine(il::io_t, il::StringView &line);
   static bool containsDigit(char c);
 };
-- 
2.43.0


From 8efb4cc08ce6ab8fa6ed9950829f71bbba833fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:40 +0000
Subject: [PATCH 110/169] fix: deeply nested configuration values are reported

---
 il/io/toml/toml.cpp | 10 ++++++++++
 il/io/toml/toml.h   |  3 ++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index e16446b..b4e9245 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -631,6 +631,13 @@ il::Dynamic TomlParser::parseValue(il::io_t, il::StringView& string,
     return ans;
   }
 
+  if (depth_ == max_depth_) {
+    status.SetError(il::Error::ParseValue);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return ans;
+  }
+
   // Get the type of the value
   il::Status parse_status{};
   il::Type type = parseType(string, il::io, parse_status);
@@ -639,6 +646,7 @@ il::Dynamic TomlParser::parseValue(il::io_t, il::StringView& string,
     return ans;
   }
 
+  ++depth_;
   switch (type) {
     case il::Type::Bool:
       ans = parseBool(il::io, string, parse_status);
@@ -659,6 +667,7 @@ il::Dynamic TomlParser::parseValue(il::io_t, il::StringView& string,
     default:
       IL_UNREACHABLE;
   }
+  --depth_;
 
   if (!parse_status.Ok()) {
     status = std::move(parse_status);
@@ -807,6 +816,7 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   }
 
   line_number_ = 0;
+  depth_ = 0;
   tables_ = il::Map<il::String, TableKind>{};
   il::StringView line{};
   while (readLine(il::io, line)) {
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 90583f8..538325e 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -42,8 +42,9 @@ class TomlParser {
   // table a, by its own header, or by a header such as [[a]]
   enum class TableKind { Implicit, Explicit, Array };
 
-  // Tables can't be nested deeper
+  // Tables and values can't be nested deeper
   static const il::int_t max_depth_ = 200;
+  il::int_t depth_;
   il::Array<char> buffer_line_;
   il::Map<il::String, TableKind> tables_;
   il::int_t line_number_;
-- 
2.43.0


From 17478bce5ce4348baf0cb49c63233a84f8fca732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:55 +0000
Subject: [PATCH 111/169] fix: saved configuration files hold the same keys,
 nesting, numbers and strings, errors are reported

---
 il/io/toml/toml.h | 459 +++++++++++++++++++++++-----------------------
 1 file changed, 230 insertions(+), 229 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 538325e..09565a0 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -19,6 +19,10 @@
 #ifndef IL_TOML_H
 #define IL_TOML_H
 
+#include <cmath>
+#include <cstdio>
+#include <cstring>
+
 #include <il/Dynamic.h>
 #include <il/Status.h>
 #include <il/core.h>
@@ -96,226 +100,253 @@ class TomlParser {
   static bool containsDigit(char c);
 };
 
-inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
-                       std::FILE *file, il::Status &status) {
-  const int error0 = std::fputs("[ ", file);
-  IL_UNUSED(error0);
-  for (il::int_t j = 0; j < array.size(); ++j) {
-    if (j > 0) {
-      const int error1 = std::fputs(", ", file);
-      IL_UNUSED(error1);
-    }
-    switch (array[j].type()) {
-      case il::Type::Bool: {
-        if (array[j].to<bool>()) {
-          const int error2 = std::fputs("true", file);
-          IL_UNUSED(error2);
-        } else {
-          const int error2 = std::fputs("false", file);
-          IL_UNUSED(error2);
-        }
-      } break;
-      case il::Type::Integer: {
-        const int error2 = std::fprintf(file, "%td", array[j].to<il::int_t>());
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::Double: {
-        const int error2 = std::fprintf(file, "%e", array[j].to<double>());
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::UnicodeString: {
-        const int error2 = std::fputs("\"", file);
-        const int error3 =
-            std::fputs(array[j].as<il::String>().asCString(), file);
-        const int error4 = std::fputs("\"", file);
-        IL_UNUSED(error2);
-        IL_UNUSED(error3);
-        IL_UNUSED(error4);
-      } break;
-      case il::Type::ArrayOfDynamic: {
-        save_array(array[j].as<il::Array<il::Dynamic>>(), il::io, file, status);
-        if (!status.Ok()) {
-          status.Rearm();
-          return;
-        }
-      } break;
+// The functions that append the description of an object to a text return false
+// if the TOML format can't describe it
+
+inline bool tomlAppendString(const il::String &s, il::io_t, il::String &text) {
+  if (!il::isUtf8(s.data(), s.size())) {
+    return false;
+  }
+  text.Append('"');
+  for (il::int_t i = 0; i < s.size(); ++i) {
+    switch (s.data()[i]) {
+      case '"':
+        text.Append("\\\"");
+        break;
+      case '\\':
+        text.Append("\\\\");
+        break;
+      case '\b':
+        text.Append("\\b");
+        break;
+      case '\t':
+        text.Append("\\t");
+        break;
+      case '\n':
+        text.Append("\\n");
+        break;
+      case '\f':
+        text.Append("\\f");
+        break;
+      case '\r':
+        text.Append("\\r");
+        break;
       default:
-        IL_UNREACHABLE;
+        text.Append(il::StringType::Byte, s.data() + i, 1);
     }
   }
-  const int error5 = std::fputs(" ]", file);
-  IL_UNUSED(error5);
-  status.SetOk();
+  text.Append('"');
+  return true;
 }
 
+inline bool tomlAppendKey(const il::String &key, il::io_t, il::String &text) {
+  bool is_bare = key.size() > 0;
+  for (il::int_t i = 0; i < key.size(); ++i) {
+    const char c = key.data()[i];
+    is_bare = is_bare && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
+                          (c >= '0' && c <= '9') || c == '_' || c == '-');
+  }
+  if (is_bare) {
+    text.Append(key);
+    return true;
+  }
+  return il::tomlAppendString(key, il::io, text);
+}
+
+inline bool tomlAppendDouble(double x, il::io_t, il::String &text) {
+  if (!std::isfinite(x)) {
+    return false;
+  }
+  // With 17 digits, the same number is read. It would be an integer without a
+  // dot or an exponent.
+  char buffer[32];
+  const int n = std::snprintf(buffer, 32, "%.17g", x);
+  text.Append(il::StringType::Ascii, buffer, n);
+  if (!std::strchr(buffer, '.') && !std::strchr(buffer, 'e')) {
+    text.Append(".0");
+  }
+  return true;
+}
+
+inline bool tomlAppendValue(const il::Dynamic &value, il::io_t,
+                            il::String &text);
+
 template <typename M>
-inline void save_aux(const M &toml, const il::String &name, il::io_t,
-                     std::FILE *file, il::Status &status) {
-  int error = 0;
-  // Add an object that sets the error on destruction
+inline bool tomlAppendInlineTable(const M &toml, il::io_t, il::String &text) {
+  bool ok = true;
+  bool first = true;
+  text.Append("{ ");
+  for (il::spot_t i = toml.spotBegin(); ok && i != toml.spotEnd();
+       i = toml.next(i)) {
+    if (!first) {
+      text.Append(", ");
+    }
+    first = false;
+    ok = il::tomlAppendKey(toml.key(i), il::io, text);
+    text.Append(" = ");
+    ok = ok && il::tomlAppendValue(toml.value(i), il::io, text);
+  }
+  text.Append(" }");
+  return ok;
+}
 
-  for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
-    const il::Dynamic &value = toml.value(i);
-    const il::Type type = value.type();
-    if (type != il::Type::MapArrayStringToDynamic &&
-        type != il::Type::MapStringToDynamic) {
-      error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs(" = ", file);
-      if (error == EOF) return;
-      switch (type) {
-        case il::Type::Bool:
-          if (value.to<bool>()) {
-            error = std::fputs("true", file);
-          } else {
-            error = std::fputs("false", file);
-          }
-          if (error == EOF) return;
-          break;
-        case il::Type::Integer:
-          error = std::fprintf(file, "%td", value.to<il::int_t>());
-          if (error == EOF) return;
-          break;
-        case il::Type::Double:
-          error = std::fprintf(file, "%e", value.to<double>());
-          if (error == EOF) return;
-          break;
-        case il::Type::UnicodeString:
-          error = std::fputs("\"", file);
-          if (error == EOF) return;
-          error = std::fputs(value.as<il::String>().asCString(), file);
-          if (error == EOF) return;
-          error = std::fputs("\"", file);
-          if (error == EOF) return;
-          break;
-        case il::Type::ArrayOfDouble: {
-          const il::Array<double> &v = value.as<il::Array<double>>();
-          error = std::fputs("[ ", file);
-          if (error == EOF) return;
-          for (il::int_t i = 0; i < v.size(); ++i) {
-            std::fprintf(file, "%e", v[i]);
-            if (i + 1 < v.size()) {
-              error = std::fputs(", ", file);
-              if (error == EOF) return;
-            }
-          }
-          error = std::fputs(" ]", file);
-          if (error == EOF) return;
-        } break;
-        case il::Type::Array2DOfDouble: {
-          const il::Array2D<double> &v = value.as<il::Array2D<double>>();
-          error = std::fputs("[ ", file);
-          if (error == EOF) return;
-          for (il::int_t i = 0; i < v.size(0); ++i) {
-            error = std::fputs("[ ", file);
-            if (error == EOF) return;
-            for (il::int_t j = 0; j < v.size(1); ++j) {
-              std::fprintf(file, "%e", v(i, j));
-              if (j + 1 < v.size(1)) {
-                error = std::fputs(", ", file);
-                if (error == EOF) return;
-              }
-            }
-            error = std::fputs(" ]", file);
-            if (error == EOF) return;
-            if (i + 1 < v.size(0)) {
-              error = std::fputs(", ", file);
-              if (error == EOF) return;
-            }
-          }
-          error = std::fputs(" ]", file);
-          if (error == EOF) return;
-        } break;
-        case il::Type::ArrayOfDynamic: {
-          save_array(value.as<il::Array<il::Dynamic>>(), il::io, file, status);
-          status.AbortOnError();
-        } break;
-        default:
-          IL_UNREACHABLE;
+inline bool tomlAppendValue(const il::Dynamic &value, il::io_t,
+                            il::String &text) {
+  bool ok = true;
+  switch (value.type()) {
+    case il::Type::Bool:
+      if (value.to<bool>()) {
+        text.Append("true");
+      } else {
+        text.Append("false");
       }
-      error = std::fputs("\n", file);
-      if (error == EOF) return;
-    } else if (type == il::Type::MapArrayStringToDynamic) {
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
-      if (name.size() != 0) {
-        error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
-        error = std::fputs(".", file);
-        if (error == EOF) return;
+      break;
+    case il::Type::Integer:
+      text.Append(il::toString(value.to<il::int_t>()));
+      break;
+    case il::Type::Double:
+      ok = il::tomlAppendDouble(value.to<double>(), il::io, text);
+      break;
+    case il::Type::UnicodeString:
+      ok = il::tomlAppendString(value.as<il::String>(), il::io, text);
+      break;
+    case il::Type::ArrayOfDouble: {
+      const il::Array<double> &v = value.as<il::Array<double>>();
+      text.Append("[ ");
+      for (il::int_t i = 0; ok && i < v.size(); ++i) {
+        if (i > 0) {
+          text.Append(", ");
+        }
+        ok = il::tomlAppendDouble(v[i], il::io, text);
+      }
+      text.Append(" ]");
+    } break;
+    case il::Type::Array2DOfDouble: {
+      const il::Array2D<double> &v = value.as<il::Array2D<double>>();
+      text.Append("[ ");
+      for (il::int_t i = 0; i < v.size(0); ++i) {
+        if (i > 0) {
+          text.Append(", ");
+        }
+        text.Append("[ ");
+        for (il::int_t j = 0; ok && j < v.size(1); ++j) {
+          if (j > 0) {
+            text.Append(", ");
+          }
+          ok = il::tomlAppendDouble(v(i, j), il::io, text);
+        }
+        text.Append(" ]");
       }
-      error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs("]\n", file);
-      if (error == EOF) return;
-      save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), toml.key(i),
-               il::io, file, status);
-      if (!status.Ok()) {
-        status.Rearm();
-        return;
+      text.Append(" ]");
+    } break;
+    case il::Type::ArrayOfDynamic: {
+      const il::Array<il::Dynamic> &v = value.as<il::Array<il::Dynamic>>();
+      text.Append("[ ");
+      for (il::int_t i = 0; ok && i < v.size(); ++i) {
+        if (i > 0) {
+          text.Append(", ");
+        }
+        ok = il::tomlAppendValue(v[i], il::io, text);
       }
-    } else if (type == il::Type::MapStringToDynamic) {
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
-      if (name.size() != 0) {
-        error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
-        error = std::fputs(".", file);
-        if (error == EOF) return;
+      text.Append(" ]");
+    } break;
+    case il::Type::MapArrayStringToDynamic:
+      ok = il::tomlAppendInlineTable(
+          value.as<il::MapArray<il::String, il::Dynamic>>(), il::io, text);
+      break;
+    case il::Type::MapStringToDynamic:
+      ok = il::tomlAppendInlineTable(
+          value.as<il::Map<il::String, il::Dynamic>>(), il::io, text);
+      break;
+    default:
+      ok = false;
+  }
+  return ok;
+}
+
+// The values come first as what follows the name of a table belongs to it
+template <typename M>
+inline bool tomlAppendTable(const M &toml, const il::String &name, il::io_t,
+                            il::String &text) {
+  bool ok = true;
+  for (il::spot_t i = toml.spotBegin(); ok && i != toml.spotEnd();
+       i = toml.next(i)) {
+    const il::Dynamic &value = toml.value(i);
+    if (value.type() != il::Type::MapArrayStringToDynamic &&
+        value.type() != il::Type::MapStringToDynamic) {
+      ok = il::tomlAppendKey(toml.key(i), il::io, text);
+      text.Append(" = ");
+      ok = ok && il::tomlAppendValue(value, il::io, text);
+      text.Append('\n');
+    }
+  }
+  for (il::spot_t i = toml.spotBegin(); ok && i != toml.spotEnd();
+       i = toml.next(i)) {
+    const il::Dynamic &value = toml.value(i);
+    if (value.type() == il::Type::MapArrayStringToDynamic ||
+        value.type() == il::Type::MapStringToDynamic) {
+      il::String full_name = name;
+      if (!full_name.isEmpty()) {
+        full_name.Append('.');
       }
-      error = std::fputs(toml.key(i).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs("]\n", file);
-      if (error == EOF) return;
-      save_aux(value.as<il::Map<il::String, il::Dynamic>>(), toml.key(i),
-               il::io, file, status);
-      if (!status.Ok()) {
-        status.Rearm();
-        return;
+      ok = il::tomlAppendKey(toml.key(i), il::io, full_name);
+      text.Append("\n[");
+      text.Append(full_name);
+      text.Append("]\n");
+      if (value.type() == il::Type::MapArrayStringToDynamic) {
+        ok = ok && il::tomlAppendTable(
+                       value.as<il::MapArray<il::String, il::Dynamic>>(),
+                       full_name, il::io, text);
+      } else {
+        ok = ok && il::tomlAppendTable(
+                       value.as<il::Map<il::String, il::Dynamic>>(), full_name,
+                       il::io, text);
       }
     }
   }
-
-  status.SetOk();
-  return;
+  return ok;
 }
 
-template <>
-class SaveHelper<il::Map<il::String, il::Dynamic>> {
- public:
-  static void save(const il::Map<il::String, il::Dynamic> &toml,
-                   const il::String &filename, il::io_t, il::Status &status) {
+template <typename M>
+inline void saveToml(const M &toml, const il::String &filename, il::io_t,
+                     il::Status &status) {
+  il::String text{};
+  if (!il::tomlAppendTable(toml, il::String{}, il::io, text)) {
+    status.SetError(il::Error::Unimplemented);
+    IL_SET_SOURCE(status);
+    return;
+  }
+
 #ifdef IL_UNIX
-    std::FILE *file = std::fopen(filename.asCString(), "wb");
-    if (!file) {
-      status.SetError(il::Error::FilesystemFileNotFound);
-      return;
-    }
+  std::FILE *file = std::fopen(filename.asCString(), "wb");
 #else
-    il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE *file;
-    errno_t error_nb = _wfopen_s(&file, filename_utf16.asWString(), L"wb");
-    if (error_nb != 0) {
-      status.SetError(il::Error::FilesystemFileNotFound);
-      return;
-    }
+  il::UTF16String filename_utf16 = il::toUtf16(filename);
+  std::FILE *file = _wfopen(filename_utf16.asWString(), L"wb");
 #endif
+  if (!file) {
+    status.SetError(il::Error::FilesystemFileNotFound);
+    IL_SET_SOURCE(status);
+    return;
+  }
 
-    il::String root_name{};
-    save_aux(toml, root_name, il::io, file, status);
-    if (!status.Ok()) {
-      status.Rearm();
-      return;
-    }
+  const std::size_t n = static_cast<std::size_t>(text.size());
+  const std::size_t written = std::fwrite(text.data(), 1, n, file);
+  const int error = std::fclose(file);
+  if (written != n || error != 0) {
+    status.SetError(il::Error::FilesystemCanNotWriteToFile);
+    IL_SET_SOURCE(status);
+    return;
+  }
 
-    const int error = std::fclose(file);
-    if (error != 0) {
-      status.SetError(il::Error::FilesystemCanNotCloseFile);
-      return;
-    }
+  status.SetOk();
+}
 
-    status.SetOk();
-    return;
+template <>
+class SaveHelperToml<il::Map<il::String, il::Dynamic>> {
+ public:
+  static void save(const il::Map<il::String, il::Dynamic> &toml,
+                   const il::String &filename, il::io_t, il::Status &status) {
+    il::saveToml(toml, filename, il::io, status);
   }
 };
 
@@ -324,37 +355,7 @@ class SaveHelperToml<il::MapArray<il::String, il::Dynamic>> {
  public:
   static void save(const il::MapArray<il::String, il::Dynamic> &toml,
                    const il::String &filename, il::io_t, il::Status &status) {
-#ifdef IL_UNIX
-    std::FILE *file = std::fopen(filename.asCString(), "wb");
-    if (!file) {
-      status.SetError(il::Error::FilesystemFileNotFound);
-      return;
-    }
-#else
-    il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE *file;
-    errno_t error_nb = _wfopen_s(&file, filename_utf16.asWString(), L"wb");
-    if (error_nb != 0) {
-      status.SetError(il::Error::FilesystemFileNotFound);
-      return;
-    }
-#endif
-
-    il::String root_name{};
-    save_aux(toml, root_name, il::io, file, status);
-    if (!status.Ok()) {
-      status.Rearm();
-      return;
-    }
-
-    const int error = std::fclose(file);
-    if (error != 0) {
-      status.SetError(il::Error::FilesystemCanNotCloseFile);
-      return;
-    }
-
-    status.SetOk();
-    return;
+    il::saveToml(toml, filename, il::io, status);
   }
 };
 
-- 
2.43.0


From ecf3655cddbc30fc0094328505e4a1be97a468fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:32 +0000
Subject: [PATCH 112/169] fix: isUtf8 of a number of bytes is defined

---
 il/container/string/String.h | 38 ++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index b38ae0f..546cef9 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -252,6 +252,44 @@ inline bool isAscii(const char* s, il::int_t n) {
   return ans;
 }
 
+inline bool isUtf8(const char* s, il::int_t n) {
+  il::int_t i = 0;
+  while (i < n) {
+    const unsigned char c = static_cast<unsigned char>(s[i]);
+    // Length of the sequence and range of its second byte, which rules out
+    // overlong sequences, surrogates and runes above 0x10FFFF
+    il::int_t length = 1;
+    unsigned char min = 0x80;
+    unsigned char max = 0xBF;
+    if (c >= 0xC2 && c <= 0xDF) {
+      length = 2;
+    } else if (c >= 0xE0 && c <= 0xEF) {
+      length = 3;
+      min = (c == 0xE0) ? 0xA0 : 0x80;
+      max = (c == 0xED) ? 0x9F : 0xBF;
+    } else if (c >= 0xF0 && c <= 0xF4) {
+      length = 4;
+      min = (c == 0xF0) ? 0x90 : 0x80;
+      max = (c == 0xF4) ? 0x8F : 0xBF;
+    } else if (c >= 0x80) {
+      return false;
+    }
+    if (length > n - i) {
+      return false;
+    }
+    for (il::int_t k = 1; k < length; ++k) {
+      const unsigned char d = static_cast<unsigned char>(s[i + k]);
+      if (d < min || d > max) {
+        return false;
+      }
+      min = 0x80;
+      max = 0xBF;
+    }
+    i += length;
+  }
+  return true;
+}
+
 inline il::StringType joinType(il::StringType t0, il::StringType t1) {
   return static_cast<il::StringType>(
       il::max(static_cast<unsigned char>(t0), static_cast<unsigned char>(t1)));
-- 
2.43.0


From 2a21e89c753280a8174fe7ab585da14418ec708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 113/169] fix: the error of a configuration is set before its
 source

---
 il/io/toml/toml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index b4e9245..5d78d43 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -43,8 +43,8 @@ il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
   string.trimPrefix();
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
     if (!readLine(il::io, string)) {
-      IL_SET_SOURCE(status);
       status.SetError(il::Error::ParseUnclosedArray);
+      IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return string;
     }
@@ -62,8 +62,8 @@ void TomlParser::checkEndOfLineOrComment(il::StringView string, il::io_t,
                                          il::Status& status) {
   if (!string.isEmpty() && (!string.startsWithNewLine()) &&
       (string[0] != '#')) {
-    IL_SET_SOURCE(status);
     status.SetError(il::Error::ParseUnidentifiedTrailingCharacter);
+    IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
   } else {
     status.SetOk();
-- 
2.43.0


From bc90911265b2e9b5bef8b8a05a1b7534b6429f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:34 +0000
Subject: [PATCH 114/169] fix: MapArray::Set of a moved key and a copied value
 is defined

---
 il/container/hash/MapArray.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index f0eacfc..02150d1 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -121,6 +121,21 @@ void MapArray<K, V, F>::Set(const K& key, V&& value) {
 #endif
 }
 
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, const V& value) {
+  il::spot_t i = map_.search(key);
+  if (map_.found(i)) {
+    array_[map_.value(i)].value = value;
+  } else {
+    const il::int_t j = array_.size();
+    array_.Append(il::emplace, key, value);
+    map_.Set(std::move(key), j, il::io, i);
+  }
+#ifdef IL_DEBUG_CLASS
+  hash_ = map_.hash();
+#endif
+}
+
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value) {
   il::spot_t i = map_.search(key);
@@ -162,6 +177,18 @@ void MapArray<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
 #endif
 }
 
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
+  const il::int_t j = array_.size();
+  array_.Append(il::emplace, key, value);
+  map_.Set(std::move(key), j, il::io, i);
+  i.index = j;
+#ifdef IL_DEBUG_CLASS
+  hash_ = map_.hash();
+  i.signature = hash_;
+#endif
+}
+
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t j = array_.size();
-- 
2.43.0


From 84e75bed8043289e4c52df3c9d98422ed254819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:17 +0000
Subject: [PATCH 115/169] fix: binary packs hold what was saved, and errors are
 reported

---
 il/io/filepack/filepack.h | 892 ++++++++++++++++++--------------------
 il/io/io_base.h           |   9 +-
 2 files changed, 429 insertions(+), 472 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index e5ea722..8154322 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -20,8 +20,10 @@
 #define IL_FILEPACK_H
 
 #include <cstdio>
+#include <limits>
 
 #include <il/Array.h>
+#include <il/Array2D.h>
 #include <il/Map.h>
 #include <il/MapArray.h>
 #include <il/String.h>
@@ -35,24 +37,62 @@
 
 namespace il {
 
-inline il::int_t readVarint(il::io_t, il::int_t& k, std::FILE* file) {
+// Deepest nesting of maps that is read
+const il::int_t max_depth_filepack_ = 200;
+
+// Reads n objects of the given size. Returns false if the file ends before.
+inline bool readPack(void* p, std::size_t size, il::int_t n, il::io_t,
+                     std::FILE* file) {
+  return n == 0 || std::fread(p, size, static_cast<std::size_t>(n), file) ==
+                       static_cast<std::size_t>(n);
+}
+
+// Returns true if the file still holds n objects of the given size, so that
+// nothing larger than the file is allocated
+inline bool isInPack(il::int_t n, std::size_t size, il::io_t,
+                     std::FILE* file) {
+  const long position = std::ftell(file);
+  if (position == -1 || std::fseek(file, 0, SEEK_END) != 0) {
+    return false;
+  }
+  const long end = std::ftell(file);
+  if (end == -1 || std::fseek(file, position, SEEK_SET) != 0) {
+    return false;
+  }
+  return n >= 0 && n <= static_cast<il::int_t>(
+                            static_cast<std::size_t>(end - position) / size);
+}
+
+inline bool readVarint(il::io_t, il::int_t& n, std::FILE* file) {
   std::size_t ans = 0;
-  std::size_t multiplier = 1;
-  const std::size_t max_byte = 1 << 7;
   const unsigned char continuation_mask = 0x7F;
   const unsigned char continuation_byte = 0x80;
+  const int nb_bits = 8 * static_cast<int>(sizeof(std::size_t));
   unsigned char byte;
+  int shift = 0;
   do {
-    std::fread(&byte, sizeof(unsigned char), 1, file);
-    k += 1;
-    ans += multiplier * (byte & continuation_mask);
-    multiplier *= max_byte;
+    if (!readPack(&byte, sizeof(unsigned char), 1, il::io, file)) {
+      return false;
+    }
+    const std::size_t digit = byte & continuation_mask;
+    if (shift >= nb_bits || ((digit << shift) >> shift) != digit) {
+      return false;
+    }
+    ans += digit << shift;
+    shift += 7;
   } while ((byte & continuation_byte) == continuation_byte);
 
-  return static_cast<il::int_t>(ans);
+  n = static_cast<il::int_t>(ans);
+  return true;
 }
 
-inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
+inline bool writePack(const void* p, std::size_t size, il::int_t n, il::io_t,
+                      std::FILE* file) {
+  return n == 0 || std::fwrite(p, size, static_cast<std::size_t>(n), file) ==
+                       static_cast<std::size_t>(n);
+}
+
+inline bool writeVarint(il::int_t n, il::io_t, std::FILE* file) {
   std::size_t un = static_cast<std::size_t>(n);
 
   const std::size_t max_byte = 1 << 7;
@@ -60,366 +100,257 @@ inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
   while (true) {
     unsigned char r = static_cast<unsigned char>(un % max_byte);
     un /= max_byte;
-    if (un == 0) {
-      std::fwrite(&r, sizeof(unsigned char), 1, file);
-      k += 1;
-      break;
-    } else {
+    if (un != 0) {
       r |= continuation_byte;
-      std::fwrite(&r, sizeof(unsigned char), 1, file);
-      k += 1;
+    }
+    if (!writePack(&r, sizeof(unsigned char), 1, il::io, file)) {
+      return false;
+    }
+    if (un == 0) {
+      return true;
     }
   }
 }
 
-inline void auxLoad(il::int_t n, il::io_t,
-                    il::Map<il::String, il::Dynamic>& config, std::FILE* file) {
-  IL_UNUSED(n);
-  il::int_t k = 0;
-
-  while (true) {
-    il::int_t size_string = readVarint(il::io, k, file);
-    if (size_string == 0) {
-      break;
-    }
-    il::Array<char> raw_string{size_string - 1};
-    std::fread(raw_string.Data(), sizeof(char), size_string - 1, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string - 1};
-    k += string.size() + 1;
-
-    il::Type type;
-    fread(&type, sizeof(il::Type), 1, file);
-    k += sizeof(il::Type);
-
-    switch (type) {
-      case il::Type::Bool: {
-        bool value = false;
-        std::fread(&value, sizeof(bool), 1, file);
-        k += sizeof(bool);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Integer: {
-        const il::int_t value = readVarint(il::io, k, file);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Single: {
-        float value = 0.0f;
-        std::fread(&value, sizeof(float), 1, file);
-        k += sizeof(float);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Double: {
-        double value = 0.0;
-        std::fread(&value, sizeof(double), 1, file);
-        k += sizeof(double);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::UnicodeString: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<char> raw_value{size + 1};
-        std::fread(raw_value.Data(), sizeof(char), size + 1, file);
-        k += size + 1;
-        il::String value{il::StringType::Byte, raw_value.data(),
-                         raw_value.size()};
-        config.Set(std::move(string), il::Dynamic{std::move(value)});
-      } break;
-      case il::Type::ArrayOfDouble: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<double> v{size};
-        std::fread(v.Data(), sizeof(double), size, file);
-        k += sizeof(double) * size;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::Array2DOfUInt8: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(unsigned char) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(A)});
-      } break;
-      case il::Type::Array2DOfDouble: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<double> v{size0, size1};
-        std::fread(v.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(double) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::ArrayOfStruct: {
-        il::int_t nb_types;
-        il::readVarint(il::io, nb_types, file);
-
-        il::Array<il::String> key{nb_types};
-        il::Array<il::Type> type{nb_types};
-        for (il::int_t i = 0; i < nb_types; ++i) {
-          il::int_t key_size;
-          il::readVarint(il::io, key_size, file);
+inline bool readString(il::io_t, il::String& string, std::FILE* file,
+                       il::int_t size) {
+  if (!isInPack(size, sizeof(char), il::io, file)) {
+    return false;
+  }
+  il::Array<char> raw_string{size};
+  if (!readPack(raw_string.Data(), sizeof(char), size, il::io, file)) {
+    return false;
+  }
+  string = il::String{il::StringType::Byte, raw_string.data(), size};
+  return true;
+}
 
-          il::Array<char> raw_string{key_size};
-          std::fread(raw_string.Data(), sizeof(char), key_size, file);
-          key[i] =
-              il::String{il::StringType::Byte, raw_string.data(), key_size};
+template <typename T>
+bool readArray2D(il::io_t, il::Array2D<T>& A, std::FILE* file) {
+  il::int_t size0 = 0;
+  il::int_t size1 = 0;
+  if (!readPack(&size0, sizeof(il::int_t), 1, il::io, file) ||
+      !readPack(&size1, sizeof(il::int_t), 1, il::io, file)) {
+    return false;
+  }
+  // An empty matrix does not need any data
+  const il::int_t max_size = il::int_t{1} << 28;
+  if (size0 < 0 || size1 < 0 ||
+      (size0 == 0 || size1 == 0
+           ? size0 > max_size || size1 > max_size
+           : size1 > std::numeric_limits<il::int_t>::max() /
+                         static_cast<il::int_t>(sizeof(T)) ||
+                 !isInPack(size0, sizeof(T) * static_cast<std::size_t>(size1),
+                           il::io, file))) {
+    return false;
+  }
+  A.Resize(size0, size1);
+  return size0 == 0 || size1 == 0 ||
+         readPack(A.Data(), sizeof(T), size0 * size1, il::io, file);
+}
 
-          fread(&(type[i]), sizeof(il::Type), 1, file);
-        }
-        il::int_t n;
-        std::fread(&n, sizeof(il::int_t), 1, file);
-
-        il::Array<il::Dynamic> array{nb_types};
-        for (il::int_t i = 0; i < nb_types; ++i) {
-          switch (type[i]) {
-            case il::Type::Double: {
-              array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-              il::Array<double>& ref = array[i].As<il::Array<double>>();
-              ref.Resize(n);
-            } break;
-            case il::Type::Integer: {
-              array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-              il::Array<int>& ref = array[i].As<il::Array<int>>();
-              ref.Resize(n);
-            } break;
-            default:
-              IL_UNREACHABLE;
-          }
-        }
+template <typename T>
+bool writeArray2D(const il::Array2D<T>& A, il::io_t, std::FILE* file) {
+  const il::int_t size0 = A.size(0);
+  const il::int_t size1 = A.size(1);
+  bool ok = writePack(&size0, sizeof(il::int_t), 1, il::io, file) &&
+            writePack(&size1, sizeof(il::int_t), 1, il::io, file);
+  for (il::int_t j = 0; ok && size0 > 0 && j < size1; ++j) {
+    ok = writePack(A.data() + j * A.stride(1), sizeof(T), size0, il::io, file);
+  }
+  return ok;
+}
 
-        for (il::int_t j = 0; j < n; ++j) {
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            switch (type[i]) {
-              case il::Type::Double: {
-                il::Array<double>& ref = array[i].As<il::Array<double>>();
-                double value = 0.0;
-                std::fread(&value, sizeof(double), 1, file);
-                ref[j] = value;
-              } break;
-              case il::Type::Integer: {
-                il::Array<int>& ref = array[i].As<il::Array<int>>();
-                int value = 0;
-                std::fread(&value, sizeof(int), 1, file);
-                ref[j] = value;
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-        }
-      }
-      case il::Type::MapArrayStringToDynamic:
-      case il::Type::MapStringToDynamic: {
-        il::int_t n_map = 0;
-        const il::int_t n = readVarint(il::io, n_map, file);
-        il::int_t size = 0;
-        il::spot_t i = config.search(string);
-        config.Set(std::move(string),
-                   il::Dynamic{il::Map<il::String, il::Dynamic>{n}}, il::io, i);
-        if (!config.found(i)) {
-          // Hello
-        }
-        il::Map<il::String, il::Dynamic>& config_inner =
-            config.Value(i).As<il::Map<il::String, il::Dynamic>>();
-        auxLoad(size, il::io, config_inner, file);
-        k += size;
-      } break;
+// An array of structures is loaded as one array per field
+inline bool readArrayOfStruct(il::io_t,
+                              il::MapArray<il::String, il::Dynamic>& data,
+                              std::FILE* file) {
+  il::int_t nb_types = 0;
+  // A field has at least the size of its key and its type
+  if (!readVarint(il::io, nb_types, file) ||
+      !isInPack(nb_types, 2, il::io, file)) {
+    return false;
+  }
+  il::Array<il::Type> type{nb_types};
+  std::size_t size_struct = 0;
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    il::int_t size_key = 0;
+    il::String key{};
+    if (!readVarint(il::io, size_key, file) ||
+        !readString(il::io, key, file, size_key) ||
+        !readPack(&type[i], sizeof(il::Type), 1, il::io, file) ||
+        data.found(data.search(key))) {
+      return false;
+    }
+    switch (type[i]) {
+      case il::Type::Double:
+        data.Set(std::move(key), il::Dynamic{il::Array<double>{}});
+        size_struct += sizeof(double);
+        break;
+      case il::Type::Integer:
+        data.Set(std::move(key), il::Dynamic{il::Array<int>{}});
+        size_struct += sizeof(int);
+        break;
       default:
-        IL_UNREACHABLE;
+        return false;
+    }
+  }
+  il::int_t n = 0;
+  if (!readVarint(il::io, n, file) ||
+      (nb_types == 0 ? n != 0 : !isInPack(n, size_struct, il::io, file))) {
+    return false;
+  }
+  il::int_t k = 0;
+  for (il::spot_t i = data.spotBegin(); i != data.spotEnd();
+       i = data.next(i)) {
+    if (type[k] == il::Type::Double) {
+      data.Value(i).As<il::Array<double>>().Resize(n);
+    } else {
+      data.Value(i).As<il::Array<int>>().Resize(n);
+    }
+    ++k;
+  }
+  for (il::int_t j = 0; j < n; ++j) {
+    k = 0;
+    for (il::spot_t i = data.spotBegin(); i != data.spotEnd();
+         i = data.next(i)) {
+      const bool ok =
+          type[k] == il::Type::Double
+              ? readPack(&data.Value(i).As<il::Array<double>>()[j],
+                         sizeof(double), 1, il::io, file)
+              : readPack(&data.Value(i).As<il::Array<int>>()[j], sizeof(int),
+                         1, il::io, file);
+      if (!ok) {
+        return false;
+      }
+      ++k;
     }
   }
+  return true;
 }
 
-inline void auxLoad(il::int_t n, il::io_t,
-                    il::MapArray<il::String, il::Dynamic>& config,
-                    std::FILE* file) {
-  IL_UNUSED(n);
-  il::int_t k = 0;
+// Loads the elements of a map, for il::Map and il::MapArray
+template <typename M>
+bool auxLoad(il::int_t depth, il::io_t, M& config, std::FILE* file) {
+  if (depth > max_depth_filepack_) {
+    return false;
+  }
+  // Number of elements that have been announced, used by the nested maps
+  il::int_t n = 0;
 
   while (true) {
-    il::int_t size_string = readVarint(il::io, k, file);
+    // A key is not empty: 0 marks the end of the map
+    il::int_t size_string = 0;
+    if (!readVarint(il::io, size_string, file)) {
+      return false;
+    }
     if (size_string == 0) {
-      break;
+      return true;
+    }
+    il::String string{};
+    if (!readString(il::io, string, file, size_string)) {
+      return false;
     }
-    il::Array<char> raw_string{size_string};
-    std::fread(raw_string.Data(), sizeof(char), size_string, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string};
-    k += string.size();
 
     il::Type type;
-    fread(&type, sizeof(il::Type), 1, file);
-    k += sizeof(il::Type);
+    if (!readPack(&type, sizeof(il::Type), 1, il::io, file)) {
+      return false;
+    }
 
     switch (type) {
       case il::Type::Bool: {
-        bool value = false;
-        std::fread(&value, sizeof(bool), 1, file);
-        k += sizeof(bool);
-        config.Set(std::move(string), il::Dynamic{value});
+        unsigned char value = 0;
+        if (!readPack(&value, sizeof(bool), 1, il::io, file) || value > 1) {
+          return false;
+        }
+        config.Set(std::move(string), il::Dynamic{value == 1});
       } break;
       case il::Type::Integer: {
-        const il::int_t value = readVarint(il::io, k, file);
+        il::int_t value = 0;
+        if (!readVarint(il::io, value, file)) {
+          return false;
+        }
         config.Set(std::move(string), il::Dynamic{value});
       } break;
       case il::Type::Single: {
         float value = 0.0f;
-        std::fread(&value, sizeof(float), 1, file);
-        k += sizeof(float);
+        if (!readPack(&value, sizeof(float), 1, il::io, file)) {
+          return false;
+        }
         config.Set(std::move(string), il::Dynamic{value});
       } break;
       case il::Type::Double: {
         double value = 0.0;
-        std::fread(&value, sizeof(double), 1, file);
-        k += sizeof(double);
+        if (!readPack(&value, sizeof(double), 1, il::io, file)) {
+          return false;
+        }
         config.Set(std::move(string), il::Dynamic{value});
       } break;
       case il::Type::UnicodeString: {
+        // The string is followed by '\0'
         il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<char> raw_value{size};
-        std::fread(raw_value.Data(), sizeof(char), size, file);
-        k += size;
-        il::String value{il::StringType::Byte, raw_value.data(), size};
+        il::String value{};
+        char end = '\0';
+        if (!readPack(&size, sizeof(il::int_t), 1, il::io, file) ||
+            !readString(il::io, value, file, size) ||
+            !readPack(&end, sizeof(char), 1, il::io, file) || end != '\0') {
+          return false;
+        }
         config.Set(std::move(string), il::Dynamic{std::move(value)});
       } break;
       case il::Type::ArrayOfDouble: {
         il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
+        if (!readPack(&size, sizeof(il::int_t), 1, il::io, file) ||
+            !isInPack(size, sizeof(double), il::io, file)) {
+          return false;
+        }
         il::Array<double> v{size};
-        std::fread(v.Data(), sizeof(double), size, file);
-        k += sizeof(double) * size;
+        if (!readPack(v.Data(), sizeof(double), size, il::io, file)) {
+          return false;
+        }
         config.Set(std::move(string), il::Dynamic{std::move(v)});
       } break;
       case il::Type::Array2DOfUInt8: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(unsigned char) * size0 * size1;
+        il::Array2D<unsigned char> A{};
+        if (!readArray2D(il::io, A, file)) {
+          return false;
+        }
         config.Set(std::move(string), il::Dynamic{std::move(A)});
       } break;
       case il::Type::Array2DOfDouble: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<double> v{size0, size1};
-        std::fread(v.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(double) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
+        il::Array2D<double> A{};
+        if (!readArray2D(il::io, A, file)) {
+          return false;
+        }
+        config.Set(std::move(string), il::Dynamic{std::move(A)});
+      } break;
+      case il::Type::ArrayOfStruct: {
+        il::MapArray<il::String, il::Dynamic> data{};
+        if (!readArrayOfStruct(il::io, data, file)) {
+          return false;
+        }
+        config.Set(std::move(string), il::Dynamic{std::move(data)});
       } break;
       case il::Type::MapArrayStringToDynamic: {
-        if (n == -1) {
-          const il::int_t nb_types = il::readVarint(il::io, k, file);
-
-          il::Array<il::String> key{nb_types};
-          il::Array<il::Type> type{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            const il::int_t key_size = il::readVarint(il::io, k, file);
-
-            il::Array<char> raw_string{key_size};
-            std::fread(raw_string.Data(), sizeof(char), key_size, file);
-            il::String my_string{il::StringType::Byte, raw_string.data(),
-                                 key_size};
-            key[i] = my_string;
-
-            const std::size_t error =
-                fread(&(type[i]), sizeof(il::Type), 1, file);
-            //            std::cout << "Here" << std::endl;
-          }
-          const il::int_t n = readVarint(il::io, k, file);
-          //          const std::size_t error = std::fread(&n,
-          //          sizeof(il::int_t), 1, file);
-
-          il::Array<il::Dynamic> array{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            switch (type[i]) {
-              case il::Type::Double: {
-                array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-                il::Array<double>& ref = array[i].As<il::Array<double>>();
-                ref.Resize(n);
-              } break;
-              case il::Type::Integer: {
-                array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-                il::Array<int>& ref = array[i].As<il::Array<int>>();
-                ref.Resize(n);
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-
-          for (il::int_t j = 0; j < n; ++j) {
-            for (il::int_t i = 0; i < nb_types; ++i) {
-              switch (type[i]) {
-                case il::Type::Double: {
-                  il::Array<double>& ref = array[i].As<il::Array<double>>();
-                  double value = 0.0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(double), 1, file);
-                  ref[j] = value;
-                } break;
-                case il::Type::Integer: {
-                  il::Array<int>& ref = array[i].As<il::Array<int>>();
-                  int value = 0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(int), 1, file);
-                  ref[j] = value;
-                } break;
-                default:
-                  IL_UNREACHABLE;
-              }
-            }
-          }
-          std::cout << "End" << std::endl;
-        } else {
-          il::int_t n_map = 0;
-          const il::int_t n = readVarint(il::io, n_map, file);
-          il::int_t size = 0;
-          il::spot_t i = config.search(string);
-          config.Set(std::move(string),
-                     il::Dynamic{il::MapArray<il::String, il::Dynamic>{n}},
-                     il::io, i);
-          if (!config.found(i)) {
-          }
-          il::MapArray<il::String, il::Dynamic>& config_inner =
-              config.Value(i).As<il::MapArray<il::String, il::Dynamic>>();
-          auxLoad(size, il::io, config_inner, file);
-          k += size;
+        il::MapArray<il::String, il::Dynamic> data{};
+        if (!readVarint(il::io, n, file) ||
+            !auxLoad(depth + 1, il::io, data, file) ||
+            n != data.nbElements()) {
+          return false;
         }
+        config.Set(std::move(string), il::Dynamic{std::move(data)});
+      } break;
+      case il::Type::MapStringToDynamic: {
+        il::Map<il::String, il::Dynamic> data{};
+        if (!readVarint(il::io, n, file) ||
+            !auxLoad(depth + 1, il::io, data, file) ||
+            n != data.nbElements()) {
+          return false;
+        }
+        config.Set(std::move(string), il::Dynamic{std::move(data)});
       } break;
-        /*
-              case il::Type::MapStringToDynamic:
-              case il::Type::MapArrayStringToDynamic: {
-                il::int_t n_map = 0;
-                const il::int_t n = readVarint(il::io, n_map, file);
-                il::int_t size = 0;
-                il::spot_t i = config.search(string);
-                config.Set(std::move(string),
-                              il::Dynamic{il::MapArray<il::String,
-           il::Dynamic>{n}}, il::io, i); if (!config.found(i)) {
-                }
-                il::MapArray<il::String, il::Dynamic>& config_inner =
-                    config.value(i).as<il::MapArray<il::String, il::Dynamic>>();
-                auxLoad(size, il::io, config_inner, file);
-                k += size;
-              } break;
-        */
       default:
-        IL_UNREACHABLE;
+        return false;
     }
   }
 }
@@ -448,9 +379,13 @@ class LoadHelperData<il::MapArray<il::String, il::Dynamic>> {
     }
 #endif
 
-    auxLoad(-1, il::io, ans, file);
+    const bool ok = auxLoad(0, il::io, ans, file);
 
     const int error = std::fclose(file);
+    if (!ok) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      return il::MapArray<il::String, il::Dynamic>{};
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return ans;
@@ -484,9 +419,13 @@ class LoadHelperData<il::Map<il::String, il::Dynamic>> {
     }
 #endif
 
-    auxLoad(-1, il::io, ans, file);
+    const bool ok = auxLoad(0, il::io, ans, file);
 
     const int error = std::fclose(file);
+    if (!ok) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      return il::Map<il::String, il::Dynamic>{};
+    }
     if (error != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return ans;
@@ -497,172 +436,179 @@ class LoadHelperData<il::Map<il::String, il::Dynamic>> {
   }
 };
 
-inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
-                    const il::ArrayView<il::String>& option, il::io_t,
-                    il::int_t& n, std::FILE* file) {
-  n = 0;
-
-  for (il::int_t i = 0; i < data.size(); ++i) {
-    il::String to_check{il::StringType::Byte, data.key(i).asCString(),
-                        data.key(i).size()};
-    il::int_t my_size = data.key(i).size();
-    IL_UNUSED(to_check);
-    IL_UNUSED(my_size);
-
-    const il::int_t string_size = data.key(i).size();
-    writeVarint(string_size, il::io, n, file);
-    std::fwrite(data.key(i).asCString(), sizeof(char), string_size, file);
-    n += data.key(i).size();
-    const il::Type type = data.value(i).type();
-    std::fwrite(&type, sizeof(il::Type), 1, file);
-    n += sizeof(il::Type);
-
+// Saves a map of arrays of the same size as an array of structures
+inline bool writeArrayOfStruct(
+    const il::MapArray<il::String, il::Dynamic>& data, il::io_t,
+    std::FILE* file, il::Error& error) {
+  il::int_t n = 0;
+  bool is_first = true;
+  for (il::spot_t i = data.spotBegin(); i != data.spotEnd();
+       i = data.next(i)) {
+    il::int_t size = 0;
     switch (data.value(i).type()) {
+      case il::Type::ArrayOfDouble:
+        size = data.value(i).as<il::Array<double>>().size();
+        break;
+      case il::Type::ArrayOfInt32:
+        size = data.value(i).as<il::Array<int>>().size();
+        break;
+      default:
+        error = il::Error::Unimplemented;
+        return false;
+    }
+    if (is_first) {
+      n = size;
+      is_first = false;
+    } else if (size != n) {
+      error = il::Error::Unimplemented;
+      return false;
+    }
+  }
+
+  error = il::Error::FilesystemCanNotWriteToFile;
+  if (!writeVarint(data.nbElements(), il::io, file)) {
+    return false;
+  }
+  for (il::spot_t i = data.spotBegin(); i != data.spotEnd();
+       i = data.next(i)) {
+    const il::String& key = data.key(i);
+    const il::Type type = data.value(i).type() == il::Type::ArrayOfDouble
+                              ? il::Type::Double
+                              : il::Type::Integer;
+    if (!writeVarint(key.size(), il::io, file) ||
+        !writePack(key.asCString(), sizeof(char), key.size(), il::io, file) ||
+        !writePack(&type, sizeof(il::Type), 1, il::io, file)) {
+      return false;
+    }
+  }
+  if (!writeVarint(n, il::io, file)) {
+    return false;
+  }
+  for (il::int_t j = 0; j < n; ++j) {
+    for (il::spot_t i = data.spotBegin(); i != data.spotEnd();
+         i = data.next(i)) {
+      const bool ok =
+          data.value(i).type() == il::Type::ArrayOfDouble
+              ? writePack(&data.value(i).as<il::Array<double>>()[j],
+                          sizeof(double), 1, il::io, file)
+              : writePack(&data.value(i).as<il::Array<int>>()[j], sizeof(int),
+                          1, il::io, file);
+      if (!ok) {
+        return false;
+      }
+    }
+  }
+  return true;
+}
+
+// Saves the elements of a map, for il::Map and il::MapArray. The option is the
+// list of the keys that lead to the map saved as an array of structures.
+template <typename M>
+bool auxSave(const M& data, const il::ArrayView<il::String>& option,
+             il::int_t depth, il::io_t, std::FILE* file, il::Error& error) {
+  // What is nested deeper could not be loaded
+  if (depth > max_depth_filepack_) {
+    error = il::Error::Unimplemented;
+    return false;
+  }
+  for (il::spot_t i = data.spotBegin(); i != data.spotEnd();
+       i = data.next(i)) {
+    const il::String& key = data.key(i);
+    const il::Dynamic& value = data.value(i);
+    const bool is_option = option.size() > 0 && option[0] == key;
+    const bool save_as_array_of_struct =
+        is_option && option.size() == 1 &&
+        value.type() == il::Type::MapArrayStringToDynamic;
+    il::ArrayView<il::String> new_option{};
+    if (is_option && option.size() > 1) {
+      new_option = option.view(il::Range{1, option.size()});
+    }
+
+    const il::Type type =
+        save_as_array_of_struct ? il::Type::ArrayOfStruct : value.type();
+    // A key of size 0 would mark the end of the map
+    if (key.isEmpty()) {
+      error = il::Error::Unimplemented;
+      return false;
+    }
+    bool ok = writeVarint(key.size(), il::io, file) &&
+              writePack(key.asCString(), sizeof(char), key.size(), il::io,
+                        file) &&
+              writePack(&type, sizeof(il::Type), 1, il::io, file);
+
+    switch (type) {
       case il::Type::Bool: {
-        const bool value = data.value(i).to<bool>();
-        std::fwrite(&value, sizeof(bool), 1, file);
-        n += sizeof(bool);
+        const bool x = value.to<bool>();
+        ok = ok && writePack(&x, sizeof(bool), 1, il::io, file);
       } break;
       case il::Type::Integer: {
-        writeVarint(data.value(i).to<il::int_t>(), il::io, n, file);
+        ok = ok && writeVarint(value.to<il::int_t>(), il::io, file);
       } break;
       case il::Type::Single: {
-        const float value = data.value(i).to<float>();
-        std::fwrite(&value, sizeof(float), 1, file);
-        n += sizeof(float);
+        const float x = value.to<float>();
+        ok = ok && writePack(&x, sizeof(float), 1, il::io, file);
       } break;
       case il::Type::Double: {
-        const double value = data.value(i).to<double>();
-        std::fwrite(&value, sizeof(double), 1, file);
-        n += sizeof(double);
+        const double x = value.to<double>();
+        ok = ok && writePack(&x, sizeof(double), 1, il::io, file);
       } break;
       case il::Type::UnicodeString: {
-        const il::int_t size = data.value(i).as<il::String>().size();
-        std::fwrite(&size, sizeof(il::int_t), 1, file);
-        std::fwrite(data.value(i).as<il::String>().asCString(), sizeof(char),
-                    size + 1, file);
-        n += sizeof(il::int_t) + size + 1;
+        const il::String& x = value.as<il::String>();
+        const il::int_t size = x.size();
+        ok = ok && writePack(&size, sizeof(il::int_t), 1, il::io, file) &&
+             writePack(x.asCString(), sizeof(char), size + 1, il::io, file);
       } break;
       case il::Type::ArrayOfDouble: {
-        const il::int_t size = data.value(i).as<il::Array<double>>().size();
-        std::fwrite(&size, sizeof(il::int_t), 1, file);
-        std::fwrite(data.value(i).as<il::Array<double>>().data(),
-                    sizeof(double), size, file);
-        n += sizeof(il::int_t) + sizeof(double) * size;
+        const il::Array<double>& x = value.as<il::Array<double>>();
+        const il::int_t size = x.size();
+        ok = ok && writePack(&size, sizeof(il::int_t), 1, il::io, file) &&
+             writePack(x.data(), sizeof(double), size, il::io, file);
       } break;
       case il::Type::Array2DOfUInt8: {
-        const il::Array2D<unsigned char>& A = data.value(i).as<il::Array2D<unsigned char>>();
-        const il::int_t size0 = A.size(0);
-        const il::int_t size1 = A.size(1);
-        std::fwrite(&size0, sizeof(il::int_t), 1, file);
-        std::fwrite(&size1, sizeof(il::int_t), 1, file);
-        for (int j = 0; j < size1; ++j) {
-          std::fwrite(A.data() + j * A.capacity(0), sizeof(double), size0,
-                      file);
-        }
-        n += 2 * sizeof(il::int_t) + sizeof(unsigned char) * size0 * size1;
+        ok = ok && writeArray2D(value.as<il::Array2D<unsigned char>>(), il::io,
+                                file);
       } break;
       case il::Type::Array2DOfDouble: {
-        const il::Array2D<double>& A = data.value(i).as<il::Array2D<double>>();
-        const il::int_t size0 = A.size(0);
-        const il::int_t size1 = A.size(1);
-        std::fwrite(&size0, sizeof(il::int_t), 1, file);
-        std::fwrite(&size1, sizeof(il::int_t), 1, file);
-        for (int j = 0; j < size1; ++j) {
-          std::fwrite(A.data() + j * A.capacity(0), sizeof(double), size0,
-                      file);
+        ok = ok && writeArray2D(value.as<il::Array2D<double>>(), il::io, file);
+      } break;
+      case il::Type::ArrayOfStruct: {
+        if (ok &&
+            !writeArrayOfStruct(
+                value.as<il::MapArray<il::String, il::Dynamic>>(), il::io,
+                file, error)) {
+          return false;
         }
-        n += 2 * sizeof(il::int_t) + sizeof(double) * size0 * size1;
       } break;
       case il::Type::MapArrayStringToDynamic: {
-        const bool save_as_array_of_struct =
-            (option.size() == 1 && option[0] == data.key(i));
-        if (save_as_array_of_struct) {
-          const il::MapArray<il::String, il::Dynamic>& my_data =
-              data.value(i).as<il::MapArray<il::String, il::Dynamic>>();
-          il::int_t k = 0;
-
-          const il::int_t population_struct = my_data.nbElements();
-          writeVarint(population_struct, il::io, k, file);
-
-          il::int_t n;
-          bool size_of_array_is_known = false;
-          for (il::spot_t i = my_data.spotBegin(); i != my_data.spotEnd();
-               i = my_data.next(i)) {
-            const il::String& key = my_data.key(i);
-            writeVarint(key.size(), il::io, k, file);
-            std::fwrite(key.asCString(), sizeof(char), key.size(), file);
-            const il::Type type = my_data.value(i).type();
-            switch (type) {
-              case il::Type::ArrayOfDouble: {
-                if (!size_of_array_is_known) {
-                  const il::Array<double>& ref =
-                      my_data.value(i).as<il::Array<double>>();
-                  n = ref.size();
-                  size_of_array_is_known = true;
-                }
-                const il::Type my_type = il::Type::Double;
-                std::fwrite(&my_type, sizeof(il::Type), 1, file);
-              } break;
-              case il::Type::ArrayOfInt32: {
-                if (!size_of_array_is_known) {
-                  const il::Array<int>& ref = my_data.value(i).as<il::Array<int>>();
-                  n = ref.size();
-                  size_of_array_is_known = true;
-                }
-                const il::Type my_type = il::Type::Integer;
-                std::fwrite(&my_type, sizeof(il::Type), 1, file);
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-
-          writeVarint(n, il::io, k, file);
-          for (il::int_t j = 0; j < n; ++j) {
-            for (il::spot_t i = my_data.spotBegin(); i != my_data.spotEnd();
-                 i = my_data.next(i)) {
-              const il::Type type = my_data.value(i).type();
-              switch (type) {
-                case il::Type::ArrayOfDouble: {
-                  const il::Array<double>& ref =
-                      my_data.value(i).as<il::Array<double>>();
-                  const double value = ref[j];
-                  std::fwrite(&value, sizeof(double), 1, file);
-                } break;
-                case il::Type::ArrayOfInt32: {
-                  const il::Array<int>& ref = my_data.value(i).as<il::Array<int>>();
-                  std::fwrite(&ref[j], sizeof(int), 1, file);
-                } break;
-                default:
-                  IL_UNREACHABLE;
-              }
-            }
-          }
-        } else {
-          il::int_t n_map = 0;
-          //        std::fwrite(&n_map, sizeof(il::int_t), 1, file);
-          writeVarint(
-              data.value(i).as<il::MapArray<il::String, il::Dynamic>>().size(),
-              il::io, n_map, file);
-          il::ArrayView<il::String> new_option{};
-          if (option.size() > 0 && option[0] == data.key(i)) {
-            new_option = option.view(il::Range{1, option.size()});
-          }
-          auxSave(data.value(i).as<il::MapArray<il::String, il::Dynamic>>(),
-                  new_option, il::io, n_map, file);
-          //        std::fseek(file, -(n_map + sizeof(il::int_t)),
-          //          SEEK_CUR);
-          //        std::fwrite(&n_map, sizeof(il::int_t), 1, file);
-          //        std::fseek(file, n_map, SEEK_CUR);
+        const il::MapArray<il::String, il::Dynamic>& x =
+            value.as<il::MapArray<il::String, il::Dynamic>>();
+        ok = ok && writeVarint(x.nbElements(), il::io, file);
+        if (ok && !auxSave(x, new_option, depth + 1, il::io, file, error)) {
+          return false;
+        }
+      } break;
+      case il::Type::MapStringToDynamic: {
+        const il::Map<il::String, il::Dynamic>& x =
+            value.as<il::Map<il::String, il::Dynamic>>();
+        ok = ok && writeVarint(x.nbElements(), il::io, file);
+        if (ok && !auxSave(x, new_option, depth + 1, il::io, file, error)) {
+          return false;
         }
-        std::cout << "End write" << std::endl;
       } break;
       default:
-        IL_UNREACHABLE;
+        error = il::Error::Unimplemented;
+        return false;
+    }
+    if (!ok) {
+      error = il::Error::FilesystemCanNotWriteToFile;
+      return false;
     }
   }
-  writeVarint(0, il::io, n, file);
+  if (!writeVarint(0, il::io, file)) {
+    error = il::Error::FilesystemCanNotWriteToFile;
+    return false;
+  }
+  return true;
 }
 
 template <>
@@ -687,11 +633,15 @@ class SaveHelperData<il::MapArray<il::String, il::Dynamic>> {
 #endif
 
     il::Array<il::String> option{};
-    il::int_t n = 0;
-    auxSave(data, option.view(), il::io, n, file);
+    il::Error error = il::Error::Undefined;
+    const bool ok = auxSave(data, option.view(), 0, il::io, file, error);
 
-    const int error = std::fclose(file);
-    if (error != 0) {
+    const int error_close = std::fclose(file);
+    if (!ok) {
+      status.SetError(error);
+      return;
+    }
+    if (error_close != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return;
     }
@@ -724,11 +674,15 @@ class SaveHelperDataWithOptions<il::MapArray<il::String, il::Dynamic>,
     }
 #endif
 
-    il::int_t n = 0;
-    auxSave(data, option.view(), il::io, n, file);
+    il::Error error = il::Error::Undefined;
+    const bool ok = auxSave(data, option.view(), 0, il::io, file, error);
 
-    const int error = std::fclose(file);
-    if (error != 0) {
+    const int error_close = std::fclose(file);
+    if (!ok) {
+      status.SetError(error);
+      return;
+    }
+    if (error_close != 0) {
       status.SetError(il::Error::FilesystemCanNotCloseFile);
       return;
     }
diff --git a/il/io/io_base.h b/il/io/io_base.h
index 05f8c6f..5266ace 100644
--- a/il/io/io_base.h
+++ b/il/io/io_base.h
@@ -251,17 +251,20 @@ void save(const T& x, const U& option, const il::String& filename, il::io_t,
   }
   switch (ft) {
     case il::FileType::Toml:
-      IL_UNREACHABLE;
+      il::SaveHelperWithOptions<T, U>::save(x, option, filename, il::io,
+                                            status);
       break;
     case il::FileType::Data:
       il::SaveHelperDataWithOptions<T, U>::save(x, option, filename, il::io,
                                                 status);
       break;
     case il::FileType::Png:
-      IL_UNREACHABLE;
+      il::SaveHelperWithOptions<T, U>::save(x, option, filename, il::io,
+                                            status);
       break;
     default:
-      IL_UNREACHABLE;
+      il::SaveHelperWithOptions<T, U>::save(x, option, filename, il::io,
+                                            status);
   }
 }
 
-- 
2.43.0


From 1105fbe2100ca39d51ec4fbf8a395b1868d2cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:45 +0000
Subject: [PATCH 116/169] fix: buffered reads larger than the buffer, files
 that can not be opened or closed

---
 il/io/File.h | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/il/io/File.h b/il/io/File.h
index 9e5db6e..b185303 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -20,6 +20,7 @@
 #define IL_FILE_H
 
 #include <cstdio>
+#include <cstring>
 
 #include <il/Array.h>
 #include <il/Status.h>
@@ -62,6 +63,12 @@ class File {
 inline File::File(const il::String& filename, il::FileMode mode,
                   il::int_t buffer_size, il::io_t, il::Status& status)
     : buffer_{buffer_size} {
+  file_ = nullptr;
+  mode_ = mode;
+  next_ = 0;
+  end_buffer_ = 0;
+  nb_bytes_read_ = 0;
+  opened_ = false;
 #ifdef IL_UNIX
   il::String s_mode{};
   switch (mode) {
@@ -100,10 +107,6 @@ inline File::File(const il::String& filename, il::FileMode mode,
   }
 #endif
 
-  mode_ = mode;
-  next_ = 0;
-  end_buffer_ = 0;
-  nb_bytes_read_ = 0;
   opened_ = true;
   status.SetOk();
 }
@@ -153,13 +156,14 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
   if (nb_bytes_to_read > 0) {
     if (nb_bytes_to_read > buffer_.size()) {
       // On the Windows platform (tested with Visual Studio 2015), reading 1
-      // element of n bytes is faster than reading n elements of 1 byte. As a
-      // consequence, I we try to do that first and if we fail because we are at
-      // the end of the file, we try to read n elements of 1 byte.
-      const std::size_t nb_bytes_read =
-          std::fread(p, nb_bytes_to_read, 1, file_);
-      nb_bytes_read_ += nb_bytes_read;
-      if (nb_bytes_read != nb_bytes_to_read) {
+      // element of n bytes is faster than reading n elements of 1 byte.
+      const std::size_t chunk_read =
+          std::fread(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
+                     static_cast<std::size_t>(nb_bytes_to_read), 1, file_);
+      next_ = 0;
+      end_buffer_ = 0;
+      nb_bytes_read_ += nb_bytes_to_read;
+      if (chunk_read != 1) {
         status.SetError(il::Error::FilesystemFileNotLongEnough);
         return;
       }
@@ -168,7 +172,7 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
       // to be saved because if fread fails, its position is undefined.
       const long previous_position = std::ftell(file_);
       const std::size_t full_buffer_read = std::fread(
-          buffer_.data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
+          buffer_.Data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
       if (full_buffer_read == 1) {
         std::memcpy(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
                     buffer_.data(), static_cast<std::size_t>(nb_bytes_to_read));
@@ -240,12 +244,12 @@ inline void File::Close(il::io_t, il::Status& status) {
   IL_EXPECT_MEDIUM(opened_);
 
   const int error = std::fclose(file_);
+  opened_ = false;
   if (error != 0) {
     status.SetError(il::Error::FilesystemCanNotCloseFile);
     return;
   }
 
-  opened_ = false;
   status.SetOk();
 }
 
-- 
2.43.0


From 54b4f82dccd8cd2c7bab25eee8814d1e57b97282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 117/169] fix: pixel images with comments, malformed or
 truncated are read or reported

---
 il/io/ppm/ppm.h | 110 +++++++++++++++++++++++++-----------------------
 1 file changed, 58 insertions(+), 52 deletions(-)

diff --git a/il/io/ppm/ppm.h b/il/io/ppm/ppm.h
index 449e98c..edf6161 100644
--- a/il/io/ppm/ppm.h
+++ b/il/io/ppm/ppm.h
@@ -20,6 +20,7 @@
 #define IL_PPM_H
 
 #include <cstdio>
+#include <limits>
 #include <string>
 
 #include <il/Array2D.h>
@@ -34,7 +35,39 @@ struct Pixel {
   unsigned char blue;
 };
 
-il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
+// Reads the next character of the header. A comment starts with '#', ends with
+// the line, and stands for the end of the line.
+inline int readPpmChar(il::io_t, FILE* fp) {
+  int c = std::getc(fp);
+  if (c == '#') {
+    while (c != '\n' && c != '\r' && c != EOF) {
+      c = std::getc(fp);
+    }
+  }
+  return c;
+}
+
+// Reads the next number of the header and the character that follows it
+inline bool readPpmNumber(il::io_t, int& n, FILE* fp) {
+  int c = il::readPpmChar(il::io, fp);
+  while (c == ' ' || (c >= '\t' && c <= '\r')) {
+    c = il::readPpmChar(il::io, fp);
+  }
+  if (c < '0' || c > '9') {
+    return false;
+  }
+  n = 0;
+  while (c >= '0' && c <= '9') {
+    if (n > (std::numeric_limits<int>::max() - (c - '0')) / 10) {
+      return false;
+    }
+    n = 10 * n + (c - '0');
+    c = il::readPpmChar(il::io, fp);
+  }
+  return c == ' ' || (c >= '\t' && c <= '\r');
+}
+
+inline il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
                                il::Status& status) {
   il::Array2D<il::Pixel> image{};
 
@@ -53,67 +86,40 @@ il::Array2D<il::Pixel> readPpm(const std::string& filename, il::io_t,
   }
 #endif
 
-  char buffer[16];
-  if (!std::fgets(buffer, sizeof(buffer), fp)) {
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    return image;
-  }
-  if (buffer[0] != 'P' || buffer[1] != '6') {
+  int width = 0;
+  int height = 0;
+  int rgb_comp_color = 0;
+  const bool is_p6 = std::getc(fp) == 'P' && std::getc(fp) == '6';
+  const int c = il::readPpmChar(il::io, fp);
+  if (!is_p6 || !(c == ' ' || (c >= '\t' && c <= '\r')) ||
+      !il::readPpmNumber(il::io, width, fp) ||
+      !il::readPpmNumber(il::io, height, fp) ||
+      !il::readPpmNumber(il::io, rgb_comp_color, fp) ||
+      rgb_comp_color != 255) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
 
-  // Check for comments
-  int c{std::getc(fp)};
-  while (c == '#') {
-    while (std::getc(fp) != '\n') {
-    };
-    c = std::getc(fp);
-  }
-  std::ungetc(c, fp);
-
-  // read image size information
-  int width;
-  int height;
-#ifdef IL_UNIX
-  if (std::fscanf(fp, "%d %d", &width, &height) != 2) {
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    return image;
-  }
-#else
-  const int error_no = fscanf_s(fp, "%d %d", &width, &height);
-  if (error_no != 2) {
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    return image;
-  }
-#endif
-  // read rgb component
-  int rgb_comp_color;
-#ifdef IL_UNIX
-  if (std::fscanf(fp, "%d", &rgb_comp_color) != 1) {
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    return image;
-  }
-#else
-  {
-    const int error_no = fscanf_s(fp, "%d", &rgb_comp_color);
-    if (error_no != 1) {
-      status.SetError(il::Error::BinaryFileWrongFormat);
-      return image;
-    }
-  }
-#endif
-  // check rgb component depth
-  if (rgb_comp_color != 255) {
+  // check that the file is long enough before allocating the image
+  const long position = std::ftell(fp);
+  const bool is_seekable =
+      position != -1 && std::fseek(fp, 0, SEEK_END) == 0;
+  const long end = is_seekable ? std::ftell(fp) : -1;
+  const long long nb_pixels = static_cast<long long>(width) * height;
+  if (end == -1 || std::fseek(fp, position, SEEK_SET) != 0 ||
+      nb_pixels == 0 || (end - position) / 3 < nb_pixels) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     return image;
   }
-  while (std::fgetc(fp) != '\n') {
-  };
 
   // read pixel data from file
   image.Resize(width, height);
-  if (std::fread(image.data(), 3 * width, height, fp) != height) {
+  if (std::fread(image.Data(), sizeof(il::Pixel),
+                 static_cast<std::size_t>(nb_pixels),
+                 fp) != static_cast<std::size_t>(nb_pixels)) {
+    std::fclose(fp);
     status.SetError(il::Error::BinaryFileWrongFormat);
     image.Resize(0, 0);
     return image;
-- 
2.43.0


From bf547a97696332b1f7d6edc472bf7df966d7b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:34 +0000
Subject: [PATCH 118/169] fix: numpy headers are parsed as the dictionaries
 they are

---
 il/io/numpy/numpy.cpp | 176 +++++++++++++++++++++++++-----------------
 1 file changed, 104 insertions(+), 72 deletions(-)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index 6e46335..e4210f8 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -25,6 +25,71 @@
 
 namespace il {
 
+// Reads a token of the header after spaces. Returns false, and moves only past
+// the spaces, if the header continues with something else.
+static bool readNumpyToken(const char* token, const il::StringView& header,
+                           il::int_t& i) {
+  while (i < header.size() && header[i] == ' ') {
+    ++i;
+  }
+  il::int_t k = 0;
+  while (token[k] != '\0') {
+    if (i + k >= header.size() || header[i + k] != token[k]) {
+      return false;
+    }
+    ++k;
+  }
+  i += k;
+  return true;
+}
+
+// Reads a string between quotes
+static bool readNumpyString(const il::StringView& header, il::int_t& i,
+                            il::StringView& string) {
+  const char quote = readNumpyToken("'", header, i) ? '\'' : '"';
+  if (quote == '"' && !readNumpyToken("\"", header, i)) {
+    return false;
+  }
+  const il::int_t i_begin = i;
+  while (i < header.size() && header[i] != quote) {
+    ++i;
+  }
+  if (i == header.size()) {
+    return false;
+  }
+  string = il::StringView{il::StringType::Byte, header.data() + i_begin,
+                          i - i_begin};
+  ++i;
+  return true;
+}
+
+// Reads the list of extents. As in Python, a single extent is followed by ','
+static bool readNumpyShape(const il::StringView& header, il::int_t& i,
+                           il::Array<il::int_t>& shape) {
+  const il::int_t max_extent = std::numeric_limits<il::int_t>::max();
+  if (!readNumpyToken("(", header, i)) {
+    return false;
+  }
+  bool comma = true;
+  while (!readNumpyToken(")", header, i)) {
+    const il::int_t i_begin = i;
+    il::int_t extent = 0;
+    while (i < header.size() && header[i] >= '0' && header[i] <= '9') {
+      if (extent > (max_extent - 9) / 10) {
+        return false;
+      }
+      extent = 10 * extent + (header[i] - '0');
+      ++i;
+    }
+    if (!comma || i == i_begin) {
+      return false;
+    }
+    shape.Append(extent);
+    comma = readNumpyToken(",", header, i);
+  }
+  return shape.size() != 1 || comma;
+}
+
 NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
   NumpyInfo numpy_info;
 
@@ -76,85 +141,52 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
     return numpy_info;
   }
 
-  // Read the endianness, the type of the Numpy array, and the byte size
-  //
-  const il::int_t i4 = il::search("descr", header);
-  if (i4 == -1 || i4 + 12 >= header.size()) {
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    IL_SET_SOURCE(status);
-    return numpy_info;
-  }
-  const bool little_endian = header[i4 + 9] == '<' || header[i4 + 9] == '|';
-  if (!little_endian) {
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    IL_SET_SOURCE(status);
-    return numpy_info;
-  }
-
-  StringView type_string = header.subview(i4 + 10, header.size());
-  const il::int_t i5 = il::search("'", type_string);
-  if (i5 == -1) {
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    IL_SET_SOURCE(status);
-    return numpy_info;
-  }
-  numpy_info.type = il::String{il::StringType::Byte, type_string.data(), i5};
-
-  // Read the ordering for multidimensional arrays
+  // Read the dictionary. It contains exactly:
+  // - 'descr', the endianness, the type of the Numpy array and the byte size
+  // - 'fortran_order', the ordering for multidimensional arrays
+  // - 'shape', the dimensions
   //
-  const il::int_t i0 = il::search("fortran_order", header);
-  if (i0 == -1 || i0 + 20 > header.size()) {
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    IL_SET_SOURCE(status);
-    return numpy_info;
+  il::int_t i = 0;
+  bool found_descr = false;
+  bool found_fortran_order = false;
+  bool found_shape = false;
+  bool ok = readNumpyToken("{", header, i);
+  while (ok && !readNumpyToken("}", header, i)) {
+    StringView key{};
+    ok = readNumpyString(header, i, key) && readNumpyToken(":", header, i);
+    if (!ok) {
+      break;
+    } else if (key == "descr" && !found_descr) {
+      found_descr = true;
+      StringView descr{};
+      ok = readNumpyString(header, i, descr) && descr.size() >= 2 &&
+           (descr[0] == '<' || descr[0] == '|');
+      if (ok) {
+        numpy_info.type = il::String{il::StringType::Byte, descr.data() + 1,
+                                     descr.size() - 1};
+      }
+    } else if (key == "fortran_order" && !found_fortran_order) {
+      found_fortran_order = true;
+      numpy_info.fortran_order = readNumpyToken("True", header, i);
+      ok = numpy_info.fortran_order || readNumpyToken("False", header, i);
+    } else if (key == "shape" && !found_shape) {
+      found_shape = true;
+      ok = readNumpyShape(header, i, numpy_info.shape);
+    } else {
+      ok = false;
+    }
+    if (ok && !readNumpyToken(",", header, i)) {
+      ok = readNumpyToken("}", header, i);
+      break;
+    }
   }
-
-  StringView fortran_order_string = header.subview(i0 + 16, i0 + 20);
-  numpy_info.fortran_order = (fortran_order_string == "True") ? true : false;
-  if (!numpy_info.fortran_order && !(fortran_order_string == "Fals")) {
+  if (!ok || !readNumpyToken("\n", header, i) || i != header.size() ||
+      !found_descr || !found_fortran_order || !found_shape) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
     return numpy_info;
   }
 
-  // Read the dimensions
-  //
-  const il::int_t i1 = il::search("(", header);
-  const il::int_t i2 = il::search(")", header);
-  if (i1 == -1 || i2 == -1 || i2 - i1 <= 1) {
-    status.SetError(il::Error::BinaryFileWrongFormat);
-    IL_SET_SOURCE(status);
-    return numpy_info;
-  }
-  const il::int_t max_extent = std::numeric_limits<il::int_t>::max();
-  il::int_t i = i1 + 1;
-  while (i < i2) {
-    while (i < i2 && header[i] == ' ') {
-      ++i;
-    }
-    if (i == i2 && numpy_info.shape.size() > 0) {
-      break;
-    }
-    il::int_t extent = 0;
-    const il::int_t i_begin = i;
-    while (i < i2 && header[i] >= '0' && header[i] <= '9' &&
-           extent <= (max_extent - 9) / 10) {
-      extent = 10 * extent + (header[i] - '0');
-      ++i;
-    }
-    const bool no_digit = i == i_begin;
-    while (i < i2 && header[i] == ' ') {
-      ++i;
-    }
-    if (no_digit || (i < i2 && header[i] != ',')) {
-      status.SetError(il::Error::BinaryFileWrongFormat);
-      IL_SET_SOURCE(status);
-      return numpy_info;
-    }
-    numpy_info.shape.Append(extent);
-    ++i;
-  }
-
   status.SetOk();
   return numpy_info;
 }
-- 
2.43.0


From 5b0540813efceef0f2850d8413aa4020ad2ff5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:07 +0000
Subject: [PATCH 119/169] fix: keys of configurations that need quotes are
 reported without them

---
 il/io/toml/toml.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 5d78d43..f7662ec 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -593,19 +593,13 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
     string.removePrefix(j_end);
 
     for (il::int_t i = 0; i < key_string.size(); ++i) {
-      if (key_string[i] == ' ' || key_string[i] == '\t') {
-        status.SetError(il::Error::ParseKey);
-        IL_SET_SOURCE(status);
-        status.SetInfo("line", line_number_);
-        return key;
-      }
-      if (key_string[i] == '#') {
-        status.SetError(il::Error::ParseKey);
-        IL_SET_SOURCE(status);
-        status.SetInfo("line", line_number_);
-        return key;
-      }
-      if (key_string[i] == '[' || key_string[i] == ']') {
+      // Only letters, digits, '_' and '-' don't need quotes. A '.' would
+      // separate two keys, which is only known in the headers of the tables.
+      const unsigned char c = static_cast<unsigned char>(key_string[i]);
+      const bool allowed = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
+                           (c >= '0' && c <= '9') || c == '_' || c == '-' ||
+                           c >= 0x80;
+      if (!allowed) {
         status.SetError(il::Error::ParseKey);
         IL_SET_SOURCE(status);
         status.SetInfo("line", line_number_);
-- 
2.43.0


From 79882d6ad7cc4153957e1703311d736ce8a4f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:33 +0000
Subject: [PATCH 120/169] fix: products of a row-major double matrix accept the
 Star operation

---
 il/linearAlgebra/dense/blas/blas.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index c477d8b..afc4007 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -547,6 +547,7 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
       IL_EXPECT_FAST(A.size(1) == x.size());
       break;
     case il::Dot::Transpose:
+    case il::Dot::Star:
       IL_EXPECT_FAST(A.size(0) == x.size());
       IL_EXPECT_FAST(A.size(1) == y.size());
       break;
-- 
2.43.0


From 059297d11f5e4490d629e89548bd864b23c67df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:33 +0000
Subject: [PATCH 121/169] fix: products of two transposed matrices check the
 sizes of their operands

---
 il/linearAlgebra/dense/blas/blas.h | 32 ++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index afc4007..91a09f5 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -678,6 +678,10 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -731,6 +735,10 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -786,6 +794,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -856,6 +868,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -924,6 +940,10 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -977,6 +997,10 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -1032,6 +1056,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -1102,6 +1130,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
-- 
2.43.0


From 93e219c4398c6fbf4496e7d8e01e7dc8b652d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:33 +0000
Subject: [PATCH 122/169] fix: products of empty operands and with an inner
 dimension of 0 are defined

---
 il/linearAlgebra/dense/blas/blas.h | 184 ++++++++++++++++++++---------
 1 file changed, 128 insertions(+), 56 deletions(-)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index 91a09f5..cd1ec7c 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -49,6 +49,22 @@ inline CBLAS_TRANSPOSE blas_from_dot(il::Dot op) {
   }
 }
 
+// BLAS does not accept a leading dimension of 0, the one of empty matrices
+
+inline IL_CBLAS_INT blas_leading_dimension(il::int_t stride) {
+  return static_cast<IL_CBLAS_INT>(stride > 0 ? stride : 1);
+}
+
+// y = beta * y, which is what is left of a product when its inner dimension
+// is 0. BLAS leaves y unchanged in that case.
+
+template <typename T>
+inline void blas_scale(T beta, il::io_t, il::ArrayEdit<T> y) {
+  for (il::int_t i = 0; i < y.size(); ++i) {
+    y[i] = beta == T{0} ? T{0} : beta * y[i];
+  }
+}
+
 // y = alpha * x + y
 
 inline void blas(float alpha, il::ArrayView<float> x, il::io_t,
@@ -362,13 +378,18 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(y.size() == 0 || x.data() != y.data());
+
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -397,13 +418,18 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(y.size() == 0 || x.data() != y.data());
+
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -434,13 +460,18 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(y.size() == 0 || x.data() != y.data());
+
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -477,13 +508,18 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(y.size() == 0 || x.data() != y.data());
+
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -519,13 +555,18 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(y.size() == 0 || x.data() != y.data());
+
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -554,13 +595,18 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(y.size() == 0 || x.data() != y.data());
+
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -591,13 +637,18 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(y.size() == 0 || x.data() != y.data());
+
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -634,13 +685,18 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(y.size() == 0 || x.data() != y.data());
+
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -683,8 +739,10 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 A.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -695,9 +753,9 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(1));
   cblas_sgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -740,8 +798,10 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 A.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -752,9 +812,9 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(1));
   cblas_dgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -799,8 +859,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 A.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -811,9 +873,9 @@ inline void blas(std::complex<float> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(1));
 #ifdef IL_MKL
   cblas_cgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -873,8 +935,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 A.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -885,9 +949,9 @@ inline void blas(std::complex<double> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(1));
 #ifdef IL_MKL
   cblas_zgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -945,8 +1009,10 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 A.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -957,9 +1023,9 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(0));
   cblas_sgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -1002,8 +1068,10 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 A.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -1014,9 +1082,9 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(0));
   cblas_dgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -1061,8 +1129,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 A.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -1073,9 +1143,9 @@ inline void blas(std::complex<float> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(0));
 #ifdef IL_MKL
   cblas_cgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -1135,8 +1205,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 A.data() != C.data());
+  IL_EXPECT_FAST(C.size(0) == 0 || C.size(1) == 0 ||
+                 B.data() != C.data());
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -1147,9 +1219,9 @@ inline void blas(std::complex<double> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_leading_dimension(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_leading_dimension(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_leading_dimension(C.stride(0));
 #ifdef IL_MKL
   cblas_zgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
-- 
2.43.0


From 6922fed09e527965aa8d84e056512d84850e4f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 123/169] fix: views of empty matrices are accepted

---
 il/container/2d/Array2CView.h | 4 ++--
 il/container/2d/Array2DView.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index f58d2b6..6522f13 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -143,7 +143,7 @@ Array2CView<T>::Array2CView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride > 0 || n0 == 0 || n1 == 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
@@ -162,7 +162,7 @@ Array2CView<T>::Array2CView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride, short align_mod, short align_r) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride > 0 || n0 == 0 || n1 == 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
diff --git a/il/container/2d/Array2DView.h b/il/container/2d/Array2DView.h
index 6c83a34..8598e6c 100644
--- a/il/container/2d/Array2DView.h
+++ b/il/container/2d/Array2DView.h
@@ -143,7 +143,7 @@ Array2DView<T>::Array2DView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride > 0 || n0 == 0 || n1 == 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
@@ -162,7 +162,7 @@ Array2DView<T>::Array2DView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride, short align_mod, short align_r) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride > 0 || n0 == 0 || n1 == 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
-- 
2.43.0


From deac85b979c0637da8b0ca11613a77eb039e82ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 124/169] fix: LU and QR factorizations in place can be
 included in several files

---
 il/linearAlgebra/dense/factorization/luDecomposition.h | 8 ++++----
 il/linearAlgebra/dense/factorization/qrDecomposition.h | 9 +++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/luDecomposition.h b/il/linearAlgebra/dense/factorization/luDecomposition.h
index c796dea..974bace 100644
--- a/il/linearAlgebra/dense/factorization/luDecomposition.h
+++ b/il/linearAlgebra/dense/factorization/luDecomposition.h
@@ -33,8 +33,8 @@
 
 namespace il {
 
-void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
-                     il::Array2DEdit<double> A) {
+inline void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
+                            il::Array2DEdit<double> A) {
   IL_EXPECT_MEDIUM(A.size(0) == A.size(1));
   IL_EXPECT_MEDIUM(A.size(0) == pivot.size());
 
@@ -48,8 +48,8 @@ void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
   IL_EXPECT_FAST(lapack_error == 0);
 }
 
-void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
-                     il::Array2DEdit<std::complex<double>> A) {
+inline void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
+                            il::Array2DEdit<std::complex<double>> A) {
   IL_EXPECT_MEDIUM(A.size(0) == A.size(1));
   IL_EXPECT_MEDIUM(A.size(0) == pivot.size());
 
diff --git a/il/linearAlgebra/dense/factorization/qrDecomposition.h b/il/linearAlgebra/dense/factorization/qrDecomposition.h
index d492fa1..bfde815 100644
--- a/il/linearAlgebra/dense/factorization/qrDecomposition.h
+++ b/il/linearAlgebra/dense/factorization/qrDecomposition.h
@@ -24,6 +24,7 @@
 #include <il/Array2CView.h>
 #include <il/Array2DView.h>
 #include <il/ArrayView.h>
+#include <il/math.h>
 
 #ifdef IL_MKL
 #include <mkl_lapacke.h>
@@ -33,8 +34,8 @@
 
 namespace il {
 
-void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
-                     il::Array2DEdit<double> A) {
+inline void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
+                            il::Array2DEdit<double> A) {
   IL_EXPECT_MEDIUM(tau.size() == il::min(A.size(0), A.size(1)));
 
   const int layout = LAPACK_COL_MAJOR;
@@ -46,8 +47,8 @@ void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
   IL_EXPECT_FAST(lapack_error == 0);
 }
 
-void qrDecomposition(il::io_t, il::ArrayEdit<std::complex<double>> tau,
-                     il::Array2DEdit<std::complex<double>> A) {
+inline void qrDecomposition(il::io_t, il::ArrayEdit<std::complex<double>> tau,
+                            il::Array2DEdit<std::complex<double>> A) {
   IL_EXPECT_MEDIUM(tau.size() == il::min(A.size(0), A.size(1)));
 
   const int layout = LAPACK_COL_MAJOR;
-- 
2.43.0


From 3b38a06deade8e23a89d4c415080c2d1109e0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 125/169] fix: eigenvalues can be included in several files

---
 il/linearAlgebra/dense/factorization/Eigen.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/Eigen.h b/il/linearAlgebra/dense/factorization/Eigen.h
index 635a41e..3e4cb99 100644
--- a/il/linearAlgebra/dense/factorization/Eigen.h
+++ b/il/linearAlgebra/dense/factorization/Eigen.h
@@ -53,8 +53,8 @@ class Eigen<il::Array2D<double>> {
   il::Array<std::complex<double>> eigenValue() const;
 };
 
-Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
-                                  il::Status& status)
+inline Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
+                                         il::Status& status)
     : eigen_value_{}, eigen_value_r_{}, eigen_value_i_{} {
   IL_EXPECT_FAST(A.size(0) > 0);
   IL_EXPECT_FAST(A.size(1) > 0);
@@ -92,7 +92,8 @@ Eigen<il::Array2D<double>>::Eigen(il::Array2D<double> A, il::io_t,
   }
 }
 
-il::Array<std::complex<double>> Eigen<il::Array2D<double>>::eigenValue() const {
+inline il::Array<std::complex<double>> Eigen<il::Array2D<double>>::eigenValue()
+    const {
   il::Array<std::complex<double>> ans{eigen_value_r_.size()};
 
   for (il::int_t i = 0; i < ans.size(); ++i) {
-- 
2.43.0


From c936bd7293f5291e7c2530d827e9ba53c5275264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 126/169] fix: the singular values of a static matrix can be
 computed by the class Singular

---
 .../dense/factorization/Singular.h             | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/Singular.h b/il/linearAlgebra/dense/factorization/Singular.h
index ede71e8..c3973d0 100644
--- a/il/linearAlgebra/dense/factorization/Singular.h
+++ b/il/linearAlgebra/dense/factorization/Singular.h
@@ -143,13 +143,13 @@ Singular<il::StaticArray2D<double, n, n>>::Singular(
   const int layout = LAPACK_COL_MAJOR;
   const lapack_int lapack_n = static_cast<lapack_int>(n);
 
-  il::StaticArray<double, n> d{n};
+  il::StaticArray<double, n> d{};
   il::StaticArray<double, (n == 1) ? 1 : (n - 1)> e{};
   il::StaticArray<double, n> tauq{};
   il::StaticArray<double, n> taup{};
   lapack_int lapack_error =
-      LAPACKE_dgebrd(layout, lapack_n, lapack_n, A_local.data(), lapack_n,
-                     d.data(), e.data(), tauq.data(), taup.data());
+      LAPACKE_dgebrd(layout, lapack_n, lapack_n, A_local.Data(), lapack_n,
+                     d.Data(), e.Data(), tauq.Data(), taup.Data());
   IL_EXPECT_FAST(lapack_error >= 0);
 
   const char uplo = 'U';
@@ -159,17 +159,17 @@ Singular<il::StaticArray2D<double, n, n>>::Singular(
   const lapack_int ldu = 1;
   const lapack_int ncc = 0;
   const lapack_int ldc = 1;
-  il::Array<double> vt{ldvt * ncvt};
-  il::Array<double> u{ldu * n};
-  il::Array<double> c{1};
+  il::StaticArray<double, ldvt * ncvt> vt{};
+  il::StaticArray<double, ldu * n> u{};
+  il::StaticArray<double, 1> c{};
   lapack_error =
-      LAPACKE_dbdsqr(layout, uplo, lapack_n, ncvt, nru, ncc, d.data(), e.data(),
-                     vt.data(), ldvt, u.data(), ldu, c.data(), ldc);
+      LAPACKE_dbdsqr(layout, uplo, lapack_n, ncvt, nru, ncc, d.Data(), e.Data(),
+                     vt.Data(), ldvt, u.Data(), ldu, c.Data(), ldc);
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
     status.SetOk();
-    singular_value_ = std::move(d);
+    singular_value_ = d;
   } else {
     status.SetError(il::Error::Undefined);
   }
-- 
2.43.0


From b26a9125e67e024b86770cc0ab4abb5370e50051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 127/169] fix: Householder compiles and keeps its factorization

---
 il/linearAlgebra/dense/factorization/Householder.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/Householder.h b/il/linearAlgebra/dense/factorization/Householder.h
index fdc66fa..516065b 100644
--- a/il/linearAlgebra/dense/factorization/Householder.h
+++ b/il/linearAlgebra/dense/factorization/Householder.h
@@ -22,7 +22,6 @@
 #include <il/Status.h>
 #include <il/container/1d/Array.h>
 #include <il/container/2d/Array2D.h>
-#include <il/linearAlgebra/dense/factorization/norm.h>
 
 #ifdef IL_MKL
 #include <mkl_lapacke.h>
@@ -55,20 +54,22 @@ class Householder<il::Array2D<double>> {
   //  il::Array<double> solve(il::Array<double> y) const;
 };
 
-Householder<il::Array2D<double>>::Householder(il::Array2D<double> A)
-    : house_holder_{} {
+inline Householder<il::Array2D<double>>::Householder(il::Array2D<double> A)
+    : reflexion_{}, house_holder_{} {
   IL_EXPECT_FAST(A.size(0) > 0);
   IL_EXPECT_FAST(A.size(1) > 0);
 
   const int layout = LAPACK_COL_MAJOR;
-  const char trans = 'N';
   const lapack_int m = static_cast<lapack_int>(A.size(0));
   const lapack_int n = static_cast<lapack_int>(A.size(1));
   const lapack_int lda = static_cast<lapack_int>(A.stride(1));
   il::Array<double> reflexion{m < n ? m : n};
   const lapack_int lapack_error =
-      LAPACKE_dgeqrf(layout, m, n, A.data(), lda, reflexion.data());
-  IL_EXPECT_FAST(lapack_error >= 0);
+      LAPACKE_dgeqrf(layout, m, n, A.Data(), lda, reflexion.Data());
+  IL_EXPECT_FAST(lapack_error == 0);
+
+  reflexion_ = std::move(reflexion);
+  house_holder_ = std::move(A);
 }
 
 }  // namespace il
-- 
2.43.0


From c0d02b0d6b1b704e131d209997f42cbf60ade8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 128/169] fix: Cholesky compiles and can be included in several
 files

---
 .../dense/factorization/Cholesky.h            | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/Cholesky.h b/il/linearAlgebra/dense/factorization/Cholesky.h
index aba83b8..b0038dc 100644
--- a/il/linearAlgebra/dense/factorization/Cholesky.h
+++ b/il/linearAlgebra/dense/factorization/Cholesky.h
@@ -63,8 +63,8 @@ class Cholesky<il::Array2D<double>> {
   double conditionNumber(il::Norm norm_type, double norm_a) const;
 };
 
-Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
-                                        il::Status& status)
+inline Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
+                                               il::Status& status)
     : l_{} {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
 
@@ -73,7 +73,7 @@ Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
   const lapack_int n = static_cast<lapack_int>(A.size(0));
   const lapack_int lda = static_cast<lapack_int>(A.stride(1));
   const lapack_int lapack_error =
-      LAPACKE_dpotrf(layout, uplo, n, A.data(), lda);
+      LAPACKE_dpotrf(layout, uplo, n, A.Data(), lda);
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
     status.SetOk();
@@ -83,13 +83,13 @@ Cholesky<il::Array2D<double>>::Cholesky(il::Array2D<double> A, il::io_t,
   }
 }
 
-il::int_t Cholesky<il::Array2D<double>>::size(il::int_t d) const {
+inline il::int_t Cholesky<il::Array2D<double>>::size(il::int_t d) const {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(d) < static_cast<std::size_t>(2));
 
   return l_.size(d);
 }
 
-il::Array<double> Cholesky<il::Array2D<double>>::solve(
+inline il::Array<double> Cholesky<il::Array2D<double>>::solve(
     il::Array<double> y) const {
   IL_EXPECT_FAST(l_.size(0) == y.size());
 
@@ -100,27 +100,27 @@ il::Array<double> Cholesky<il::Array2D<double>>::solve(
   const lapack_int lda = static_cast<lapack_int>(l_.stride(1));
   const lapack_int ldy = n;
   const lapack_int lapack_error =
-      LAPACKE_dpotrs(layout, uplo, n, nrhs, l_.data(), lda, y.data(), ldy);
+      LAPACKE_dpotrs(layout, uplo, n, nrhs, l_.data(), lda, y.Data(), ldy);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return y;
 }
 
-il::Array2D<double> Cholesky<il::Array2D<double>>::inverse() const {
+inline il::Array2D<double> Cholesky<il::Array2D<double>>::inverse() const {
   il::Array2D<double> inverse{l_};
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
   const lapack_int n = static_cast<lapack_int>(inverse.size(0));
   const lapack_int lda = static_cast<lapack_int>(inverse.stride(1));
   const lapack_int lapack_error =
-      LAPACKE_dpotri(layout, uplo, n, inverse.data(), lda);
+      LAPACKE_dpotri(layout, uplo, n, inverse.Data(), lda);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return inverse;
 }
 
-double Cholesky<il::Array2D<double>>::conditionNumber(il::Norm norm_type,
-                                                      double norm_a) const {
+inline double Cholesky<il::Array2D<double>>::conditionNumber(
+    il::Norm norm_type, double norm_a) const {
   IL_EXPECT_FAST(norm_type == il::Norm::L1 || norm_type == il::Norm::Linf);
 
   const int layout = LAPACK_COL_MAJOR;
@@ -145,8 +145,8 @@ class Cholesky<LowerArray2D<double>> {
   Cholesky(il::LowerArray2D<double> A, il::io_t, il::Status& status);
 };
 
-Cholesky<LowerArray2D<double>>::Cholesky(il::LowerArray2D<double> A, il::io_t,
-                                         il::Status& status)
+inline Cholesky<LowerArray2D<double>>::Cholesky(il::LowerArray2D<double> A,
+                                                il::io_t, il::Status& status)
     : l_{} {
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
-- 
2.43.0


From 6af96bf73095ab4993707fa6d1a12a8984f5c811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 129/169] fix: band systems are solved from the storage LAPACK
 expects

---
 .../dense/factorization/linearSolve.h         | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/linearSolve.h b/il/linearAlgebra/dense/factorization/linearSolve.h
index fbda6c0..d084005 100644
--- a/il/linearAlgebra/dense/factorization/linearSolve.h
+++ b/il/linearAlgebra/dense/factorization/linearSolve.h
@@ -97,16 +97,28 @@ inline il::Array<double> linearSolve(il::BandArray2C<double> A,
 
   il::Array<lapack_int> ipiv{A.size(1)};
 
-  const int layout{LAPACK_ROW_MAJOR};
+  const int layout{LAPACK_COL_MAJOR};
   const lapack_int n{static_cast<lapack_int>(A.size(1))};
   const lapack_int kl{static_cast<lapack_int>(A.widthLeft())};
   const lapack_int ku{static_cast<lapack_int>(A.widthRight())};
   const lapack_int nrhs = 1;
-  const lapack_int ldab{
-      static_cast<lapack_int>(A.widthLeft() + 1 + A.capacityRight())};
-  const lapack_int ldb = 1;
+
+  // LAPACK stores the columns of the matrix, the coefficient (i, j) being at
+  // the row kl + ku + i - j of the column j. The first kl rows are used for
+  // the fill-in.
+  il::Array2D<double> ab{2 * A.widthLeft() + A.widthRight() + 1, A.size(1),
+                         0.0};
+  for (il::int_t i = 0; i < A.size(0); ++i) {
+    for (il::int_t k = -A.widthLeft(); k <= A.widthRight(); ++k) {
+      if (i + k >= 0 && i + k < A.size(1)) {
+        ab(A.widthLeft() + A.widthRight() - k, i + k) = A(i, k);
+      }
+    }
+  }
+  const lapack_int ldab{static_cast<lapack_int>(ab.stride(1))};
+  const lapack_int ldb{n};
   const lapack_int lapack_error{LAPACKE_dgbsv(
-      layout, n, kl, ku, nrhs, A.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
+      layout, n, kl, ku, nrhs, ab.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
-- 
2.43.0


From 7e574201900e3544a5afaa0b695874ac952893e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 130/169] fix: LU solves with a matrix of any stride, and its
 determinant has a sign

---
 il/linearAlgebra/dense/factorization/LU.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index d87cabb..a20cf23 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -239,12 +239,13 @@ inline il::int_t LU<il::Array2D<double>>::size(il::int_t d) const {
 inline il::Array<double> LU<il::Array2D<double>>::solve(
     il::Array<double> y) const {
   IL_EXPECT_FAST(lu_.size(0) == lu_.size(1));
+  IL_EXPECT_FAST(lu_.size(0) == y.size());
 
   const int layout = LAPACK_COL_MAJOR;
   const char trans = 'N';
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = 1;
-  const lapack_int lda = static_cast<lapack_int>(lu_.size(0));
+  const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
   const lapack_int ldy = n;
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
@@ -263,7 +264,7 @@ inline il::Array2D<double> LU<il::Array2D<double>>::solve(
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = static_cast<lapack_int>(y.size(1));
   const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
-  const lapack_int ldy = n;
+  const lapack_int ldy = static_cast<lapack_int>(y.stride(1));
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
   IL_EXPECT_FAST(lapack_error == 0);
@@ -291,6 +292,9 @@ inline double LU<il::Array2D<double>>::determinant() const {
   double det = 1.0;
   for (il::int_t i = 0; i < lu_.size(0); ++i) {
     det *= lu_(i, i);
+    if (ipiv_[i] != i + 1) {
+      det = -det;
+    }
   }
 
   return det;
-- 
2.43.0


From a58b839eaa3c4cdc167c875978a2a1d859b449ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:45 +0000
Subject: [PATCH 131/169] fix: Cholesky gives the whole inverse and the
 condition number

---
 il/linearAlgebra/dense/factorization/Cholesky.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/Cholesky.h b/il/linearAlgebra/dense/factorization/Cholesky.h
index b0038dc..81255da 100644
--- a/il/linearAlgebra/dense/factorization/Cholesky.h
+++ b/il/linearAlgebra/dense/factorization/Cholesky.h
@@ -116,6 +116,12 @@ inline il::Array2D<double> Cholesky<il::Array2D<double>>::inverse() const {
       LAPACKE_dpotri(layout, uplo, n, inverse.Data(), lda);
   IL_EXPECT_FAST(lapack_error == 0);
 
+  for (il::int_t i1 = 1; i1 < inverse.size(1); ++i1) {
+    for (il::int_t i0 = 0; i0 < i1; ++i0) {
+      inverse(i0, i1) = inverse(i1, i0);
+    }
+  }
+
   return inverse;
 }
 
@@ -125,12 +131,11 @@ inline double Cholesky<il::Array2D<double>>::conditionNumber(
 
   const int layout = LAPACK_COL_MAJOR;
   const char uplo = 'L';
-  const char lapack_norm = (norm_type == il::Norm::L1) ? '1' : 'I';
   const lapack_int n = static_cast<lapack_int>(l_.size(0));
   const lapack_int lda = static_cast<lapack_int>(l_.stride(1));
   double rcond;
   const lapack_int lapack_error =
-      LAPACKE_dpocon(layout, lapack_norm, n, l_.data(), lda, norm_a, &rcond);
+      LAPACKE_dpocon(layout, uplo, n, l_.data(), lda, norm_a, &rcond);
   IL_EXPECT_FAST(lapack_error == 0);
 
   return 1.0 / rcond;
-- 
2.43.0


From 41648a05cb6a965fa4ac346ca36fe8d5b25056e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 132/169] fix: an empty sparse matrix can be built from
 positions

---
 il/container/2d/SparseMatrixCSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 8bac32a..3e30c1e 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -144,7 +144,7 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
   for (Index l = 0; l < nb_entries; ++l) {
     ++nb_entries_per_row[position[l][0]];
   }
-  const Index max_entries_per_row = il::max(nb_entries_per_row);
+  const Index max_entries_per_row = n > 0 ? il::max(nb_entries_per_row) : 0;
 
   // Suppose that we have the matrix entered with the following entries:
   // (0, 0) - (2, 2) - (1, 2) - (1, 1) - (2, 2)
-- 
2.43.0


From 0e3eb9b4e7f891875ab12facb9aa4bd82134ab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 133/169] fix: sparse matrices of any element and index type
 can be built

---
 il/container/2d/SparseMatrixCSR.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 3e30c1e..f18e1bf 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -22,6 +22,7 @@
 #include <il/Array.h>
 #include <il/Array2C.h>
 #include <il/SmallArray.h>
+#include <il/SmallArray.h>
 #include <il/StaticArray.h>
 #include <il/algorithmArray.h>
 #include <il/linearAlgebra/dense/norm.h>
@@ -43,8 +44,8 @@ class SparseMatrixCSR {
   SparseMatrixCSR(il::int_t height, il::int_t width, il::Array<Index> column,
                   il::Array<Index> row);
   SparseMatrixCSR(il::int_t height, il::int_t width, il::Array<Index> column,
-                  il::Array<Index> row, il::Array<double> element);
-  template <Index n>
+                  il::Array<Index> row, il::Array<T> element);
+  template <il::int_t n>
   SparseMatrixCSR(il::int_t width, il::int_t height,
                   const il::Array<il::SmallArray<Index, n>> &column);
   SparseMatrixCSR(il::int_t n,
@@ -89,7 +90,7 @@ template <typename Index, typename T>
 SparseMatrixCSR<Index, T>::SparseMatrixCSR(il::int_t height, il::int_t width,
                                            il::Array<Index> column,
                                            il::Array<Index> row,
-                                           il::Array<double> element)
+                                           il::Array<T> element)
     : n0_{height},
       n1_{width},
       element_{std::move(element)},
@@ -99,12 +100,14 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(il::int_t height, il::int_t width,
 }
 
 template <typename Index, typename T>
-template <Index n>
+template <il::int_t n>
 SparseMatrixCSR<Index, T>::SparseMatrixCSR(
     il::int_t width, il::int_t height,
     const il::Array<il::SmallArray<Index, n>> &column)
-    : n1_{width}, n0_{height}, element_{}, column_{}, row_{height + 1} {
-  Index nb_nonzero = 0;
+    : n0_{height}, n1_{width}, element_{}, column_{}, row_{height + 1} {
+  IL_EXPECT_FAST(column.size() == height);
+
+  il::int_t nb_nonzero = 0;
   for (Index i = 0; i < column.size(); ++i) {
     nb_nonzero += column[i].size();
   }
@@ -116,7 +119,7 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
     for (Index k = 0; k < column[i].size(); ++k) {
       column_[row_[i] + k] = column[i][k];
     }
-    row_[i + 1] = row_[i] + column[i].size();
+    row_[i + 1] = row_[i] + static_cast<Index>(column[i].size());
   }
 }
 
-- 
2.43.0


From 015c5fec986118c5689962ac4fc0885d20adc7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 134/169] fix: the norm of a rectangular sparse matrix takes
 weights of its sizes

---
 il/container/2d/SparseMatrixCSR.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index f18e1bf..51b69de 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -328,8 +328,8 @@ template <typename Index>
 inline double norm(const il::SparseMatrixCSR<Index, double> &A, Norm norm_type,
                    const il::Array<double> &beta,
                    const il::Array<double> &alpha) {
-  IL_EXPECT_FAST(alpha.size() == A.size(0));
-  IL_EXPECT_FAST(beta.size() == A.size(1));
+  IL_EXPECT_FAST(alpha.size() == A.size(1));
+  IL_EXPECT_FAST(beta.size() == A.size(0));
 
   double norm = 0.0;
   switch (norm_type) {
-- 
2.43.0


From e36a4b8fadfb382162f8d4d0068b0577c8b8e461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 135/169] fix: optimized sparse matrices and products of sparse
 matrices compile

---
 .../sparse/blas/SparseMatrixBlas.h            | 16 +++++++--------
 il/linearAlgebra/sparse/blas/sparseDot.h      | 20 +++++++++----------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
index 963702e..10304d4 100644
--- a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
+++ b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
@@ -44,10 +44,10 @@ SparseMatrixBlas<Index, T>::SparseMatrixBlas(il::io_t,
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
-  MKL_INT *rows_start = A.rowData();
-  MKL_INT *rows_end = A.rowData() + 1;
-  MKL_INT *col_indx = A.columnData();
-  T *values = A.elementData();
+  MKL_INT *rows_start = A.RowData();
+  MKL_INT *rows_end = A.RowData() + 1;
+  MKL_INT *col_indx = A.ColumnData();
+  T *values = A.ElementData();
 
   sparse_status_t status =
       mkl_sparse_d_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
@@ -98,10 +98,10 @@ SparseMatrixBlas<Index, float>::SparseMatrixBlas(
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
-  MKL_INT *rows_start = A.rowData();
-  MKL_INT *rows_end = A.rowData() + 1;
-  MKL_INT *col_indx = A.columnData();
-  float *values = A.elementData();
+  MKL_INT *rows_start = A.RowData();
+  MKL_INT *rows_end = A.RowData() + 1;
+  MKL_INT *col_indx = A.ColumnData();
+  float *values = A.ElementData();
 
   sparse_status_t status =
       mkl_sparse_s_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
diff --git a/il/linearAlgebra/sparse/blas/sparseDot.h b/il/linearAlgebra/sparse/blas/sparseDot.h
index e14e4bd..b255234 100644
--- a/il/linearAlgebra/sparse/blas/sparseDot.h
+++ b/il/linearAlgebra/sparse/blas/sparseDot.h
@@ -50,16 +50,16 @@ inline il::SparseMatrixCSR<int, double> dot(
   il::Array<int> row{m + 1};
   MKL_INT request = 1;
 
-  int *A_row_data = A.rowData();
-  int *A_column_data = A.columnData();
+  int *A_row_data = A.RowData();
+  int *A_column_data = A.ColumnData();
   for (int i = 0; i <= A.size(0); ++i) {
     ++A_row_data[i];
   }
   for (int i = 0; i <= A.nbNonZeros(); ++i) {
     ++A_column_data[i];
   }
-  int *B_row_data = B.rowData();
-  int *B_column_data = B.columnData();
+  int *B_row_data = B.RowData();
+  int *B_column_data = B.ColumnData();
   if (&A != &B) {
     for (int i = 0; i <= B.size(0); ++i) {
       ++B_row_data[i];
@@ -69,18 +69,18 @@ inline il::SparseMatrixCSR<int, double> dot(
     }
   }
 
-  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.elementData(),
-                  A.columnData(), A.rowData(), B.elementData(), B.columnData(),
-                  B.rowData(), element.data(), column.data(), row.data(),
+  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.ElementData(),
+                  A.ColumnData(), A.RowData(), B.ElementData(), B.ColumnData(),
+                  B.RowData(), element.Data(), column.Data(), row.Data(),
                   &nzmax, &info);
   IL_EXPECT_FAST(info == 0);
 
   element.Resize(row[m] - 1);
   column.Resize(row[m] - 1);
   request = 2;
-  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.elementData(),
-                  A.columnData(), A.rowData(), B.elementData(), B.columnData(),
-                  B.rowData(), element.data(), column.data(), row.data(),
+  mkl_dcsrmultcsr(&trans, &request, &sort, &m, &n, &k, A.ElementData(),
+                  A.ColumnData(), A.RowData(), B.ElementData(), B.ColumnData(),
+                  B.RowData(), element.Data(), column.Data(), row.Data(),
                   &nzmax, &info);
   IL_EXPECT_FAST(info == 0);
 
-- 
2.43.0


From e288e9819506ec20045afb22679923923290feac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 136/169] fix: products of sparse matrices stay inside their
 columns

---
 il/linearAlgebra/sparse/blas/sparseDot.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/sparseDot.h b/il/linearAlgebra/sparse/blas/sparseDot.h
index b255234..df4ad2d 100644
--- a/il/linearAlgebra/sparse/blas/sparseDot.h
+++ b/il/linearAlgebra/sparse/blas/sparseDot.h
@@ -55,7 +55,7 @@ inline il::SparseMatrixCSR<int, double> dot(
   for (int i = 0; i <= A.size(0); ++i) {
     ++A_row_data[i];
   }
-  for (int i = 0; i <= A.nbNonZeros(); ++i) {
+  for (int i = 0; i < A.nbNonZeros(); ++i) {
     ++A_column_data[i];
   }
   int *B_row_data = B.RowData();
@@ -64,7 +64,7 @@ inline il::SparseMatrixCSR<int, double> dot(
     for (int i = 0; i <= B.size(0); ++i) {
       ++B_row_data[i];
     }
-    for (int i = 0; i <= B.nbNonZeros(); ++i) {
+    for (int i = 0; i < B.nbNonZeros(); ++i) {
       ++B_column_data[i];
     }
   }
@@ -87,14 +87,14 @@ inline il::SparseMatrixCSR<int, double> dot(
   for (int i = 0; i <= A.size(0); ++i) {
     --A_row_data[i];
   }
-  for (int i = 0; i <= A.nbNonZeros(); ++i) {
+  for (int i = 0; i < A.nbNonZeros(); ++i) {
     --A_column_data[i];
   }
   if (&A != &B) {
     for (int i = 0; i <= B.size(0); ++i) {
       --B_row_data[i];
     }
-    for (int i = 0; i <= B.nbNonZeros(); ++i) {
+    for (int i = 0; i < B.nbNonZeros(); ++i) {
       --B_column_data[i];
     }
   }
-- 
2.43.0


From d331e587a9551616282903ae71a509099fc62ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 137/169] fix: sparse products check the sizes of the vectors

---
 il/linearAlgebra/sparse/blas/sparseBlas.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/linearAlgebra/sparse/blas/sparseBlas.h b/il/linearAlgebra/sparse/blas/sparseBlas.h
index 874cba9..9026a60 100644
--- a/il/linearAlgebra/sparse/blas/sparseBlas.h
+++ b/il/linearAlgebra/sparse/blas/sparseBlas.h
@@ -32,6 +32,9 @@ namespace il {
 inline void blas(double alpha, const il::SparseMatrixCSR<int, double>& A,
                  const il::Array<double>& x, double beta, il::io_t,
                  il::Array<double>& y) {
+  IL_EXPECT_FAST(x.size() == A.size(1));
+  IL_EXPECT_FAST(y.size() == A.size(0));
+
   //#pragma omp parallel for
   for (int i = 0; i < A.size(0); ++i) {
     double sum = 0.0;
@@ -45,6 +48,9 @@ inline void blas(double alpha, const il::SparseMatrixCSR<int, double>& A,
 inline void blas(double alpha, const il::SparseMatrixCSR<il::int_t, double>& A,
                  const il::Array<double>& x, double beta, il::io_t,
                  il::Array<double>& y) {
+  IL_EXPECT_FAST(x.size() == A.size(1));
+  IL_EXPECT_FAST(y.size() == A.size(0));
+
   //#pragma omp parallel for
   for (il::int_t i = 0; i < A.size(0); ++i) {
     double sum = 0.0;
-- 
2.43.0


From 86f2a30358b43647e97563cbd6e393e2350b8495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 138/169] fix: sparse products with a coefficient of 0
 overwrite the destination

---
 il/linearAlgebra/sparse/blas/sparseBlas.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/sparseBlas.h b/il/linearAlgebra/sparse/blas/sparseBlas.h
index 9026a60..9c26c90 100644
--- a/il/linearAlgebra/sparse/blas/sparseBlas.h
+++ b/il/linearAlgebra/sparse/blas/sparseBlas.h
@@ -41,7 +41,7 @@ inline void blas(double alpha, const il::SparseMatrixCSR<int, double>& A,
     for (int k = A.row(i); k < A.row(i + 1); ++k) {
       sum += A.element(k) * x[A.column(k)];
     }
-    y[i] = alpha * sum + beta * y[i];
+    y[i] = (beta == 0.0) ? alpha * sum : alpha * sum + beta * y[i];
   }
 }
 
@@ -57,7 +57,7 @@ inline void blas(double alpha, const il::SparseMatrixCSR<il::int_t, double>& A,
     for (il::int_t k = A.row(i); k < A.row(i + 1); ++k) {
       sum += A.element(k) * x[A.column(k)];
     }
-    y[i] = alpha * sum + beta * y[i];
+    y[i] = (beta == 0.0) ? alpha * sum : alpha * sum + beta * y[i];
   }
 }
 
-- 
2.43.0


From b37f2ff44662c9e118f24d6ffb9b5170a15dc521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 139/169] fix: Pardiso can be included in several files

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index 0878034..da303d4 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -67,7 +67,7 @@ void PardisoSizeIntSelector<Int>::pardiso_int_t(
 }
 
 template <>
-void PardisoSizeIntSelector<int>::pardiso_int_t(
+inline void PardisoSizeIntSelector<int>::pardiso_int_t(
     _MKL_DSS_HANDLE_t pt, const int *maxfct, const int *mnum, const int *mtype,
     const int *phase, const int *n, const void *a, const int *ia, const int *ja,
     int *perm, const int *nrhs, int *iparm, const int *msglvl, void *b, void *x,
@@ -77,7 +77,7 @@ void PardisoSizeIntSelector<int>::pardiso_int_t(
 }
 
 template <>
-void PardisoSizeIntSelector<std::ptrdiff_t>::pardiso_int_t(
+inline void PardisoSizeIntSelector<std::ptrdiff_t>::pardiso_int_t(
     _MKL_DSS_HANDLE_t pt, const std::ptrdiff_t *maxfct,
     const std::ptrdiff_t *mnum, const std::ptrdiff_t *mtype,
     const std::ptrdiff_t *phase, const std::ptrdiff_t *n, const void *a,
@@ -292,7 +292,7 @@ inline Pardiso::Pardiso() {
 
 inline Pardiso::~Pardiso() { Release(); }
 
-void Pardiso::SymbolicFactorization(
+inline void Pardiso::SymbolicFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   n_ = A.size(0);
@@ -315,7 +315,7 @@ void Pardiso::SymbolicFactorization(
   matrix_element_ = A.elementData();
 }
 
-void Pardiso::NumericalFactorization(
+inline void Pardiso::NumericalFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
   IL_EXPECT_FAST(matrix_element_ = A.elementData());
   IL_EXPECT_FAST(is_symbolic_factorization_);
-- 
2.43.0


From e202b7140502ad981ae4a3be84cbb9fdfd6e1f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 140/169] fix: Pardiso checks that it is given the matrix it
 has factorized

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index da303d4..ce56a1d 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -317,7 +317,7 @@ inline void Pardiso::SymbolicFactorization(
 
 inline void Pardiso::NumericalFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_symbolic_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
@@ -339,7 +339,7 @@ inline void Pardiso::NumericalFactorization(
 inline il::Array<double> Pardiso::Solve(
     const il::SparseMatrixCSR<il::int_t, double> &A,
     const il::Array<double> &y) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_numerical_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
@@ -363,7 +363,7 @@ inline il::Array<double> Pardiso::Solve(
 inline il::Array<double> Pardiso::SolveIterative(
     const il::SparseMatrixCSR<il::int_t, double> &A,
     const il::Array<double> &y) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_numerical_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
-- 
2.43.0


From 5a50c74608cb133644f2df31eb958d0fd896468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 141/169] fix: the conjugate gradient can be included in
 several files

---
 il/linearAlgebra/matrixFree/solver/Cg.h | 28 ++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Cg.h b/il/linearAlgebra/matrixFree/solver/Cg.h
index 8d0b3af..5aa5196 100644
--- a/il/linearAlgebra/matrixFree/solver/Cg.h
+++ b/il/linearAlgebra/matrixFree/solver/Cg.h
@@ -90,7 +90,7 @@ class Cg<double> {
   il::int_t maxNbIterations() const;
 };
 
-Cg<double>::Cg(const il::FunctorArray<double>& A) {
+inline Cg<double>::Cg(const il::FunctorArray<double>& A) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
 
   il::int_t n = A.size(0);
@@ -108,7 +108,7 @@ Cg<double>::Cg(const il::FunctorArray<double>& A) {
   nb_iterations_ = -1;
 }
 
-Cg<double>::Cg(const il::FunctorArray<double>& A,
+inline Cg<double>::Cg(const il::FunctorArray<double>& A,
                const il::FunctorArray<double>& B) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   IL_EXPECT_FAST(B.size(0) == B.size(1));
@@ -129,7 +129,7 @@ Cg<double>::Cg(const il::FunctorArray<double>& A,
   nb_iterations_ = -1;
 }
 
-il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
+inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
                                     il::Status& status) {
   IL_EXPECT_FAST(y.size() == n_);
 
@@ -207,7 +207,7 @@ il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
   return x;
 }
 
-void Cg<double>::SetToSolve(il::ArrayView<double> y) {
+inline void Cg<double>::SetToSolve(il::ArrayView<double> y) {
   IL_EXPECT_FAST(y.size() == n_);
 
   for (il::int_t i = 0; i < n_; ++i) {
@@ -298,7 +298,7 @@ void Cg<double>::SetToSolve(il::ArrayView<double> y) {
   IL_ENSURE(rci_request_ == 0);
 }
 
-void Cg<double>::Next() {
+inline void Cg<double>::Next() {
   bool stop_loop = false;
   il::int_t initial_nb_iterations = nb_iterations_;
 
@@ -341,39 +341,39 @@ void Cg<double>::Next() {
   }
 }
 
-double Cg<double>::trueResidualNorm() const { return norm_residual_; }
+inline double Cg<double>::trueResidualNorm() const { return norm_residual_; }
 
-il::int_t Cg<double>::nbIterations() const { return nb_iterations_; }
+inline il::int_t Cg<double>::nbIterations() const { return nb_iterations_; }
 
-void Cg<double>::getSolution(il::io_t, il::ArrayEdit<double> x) {
+inline void Cg<double>::getSolution(il::io_t, il::ArrayEdit<double> x) {
   for (il::int_t i = 0; i < n_; ++i) {
     x[i] = x_[i];
   }
 }
 
-void Cg<double>::SetRelativePrecision(double relative_precision) {
+inline void Cg<double>::SetRelativePrecision(double relative_precision) {
   IL_EXPECT_MEDIUM(relative_precision >= 0.0);
 
   relative_precision_ = relative_precision;
 }
 
-void Cg<double>::SetAbsolutionPrecision(double absolute_precision) {
+inline void Cg<double>::SetAbsolutionPrecision(double absolute_precision) {
   IL_EXPECT_MEDIUM(absolute_precision >= 0.0);
 
   absolute_precision_ = absolute_precision;
 }
 
-void Cg<double>::SetMaxNbIterations(il::int_t max_nb_iterations) {
+inline void Cg<double>::SetMaxNbIterations(il::int_t max_nb_iterations) {
   IL_EXPECT_MEDIUM(max_nb_iterations >= 0);
 
   max_nb_iterations_ = max_nb_iterations;
 }
 
-double Cg<double>::relativePrecision() const { return relative_precision_; }
+inline double Cg<double>::relativePrecision() const { return relative_precision_; }
 
-double Cg<double>::absolutePrecision() const { return absolute_precision_; }
+inline double Cg<double>::absolutePrecision() const { return absolute_precision_; }
 
-il::int_t Cg<double>::maxNbIterations() const { return max_nb_iterations_; }
+inline il::int_t Cg<double>::maxNbIterations() const { return max_nb_iterations_; }
 
 }  // namespace il
 
-- 
2.43.0


From 7e087edf40981ba485e70efdb23304e157822fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 142/169] fix: the preconditioned conjugate gradient stops on
 the true residual

---
 il/linearAlgebra/matrixFree/solver/Cg.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Cg.h b/il/linearAlgebra/matrixFree/solver/Cg.h
index 5aa5196..5cc5279 100644
--- a/il/linearAlgebra/matrixFree/solver/Cg.h
+++ b/il/linearAlgebra/matrixFree/solver/Cg.h
@@ -150,7 +150,8 @@ inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
 
   bool stop_loop = false;
   bool max_nb_iterations_reached = false;
-  bool has_converged = false;
+  const MKL_INT integer_one = 1;
+  const double norm_y = dnrm2(&n_, y.data(), &integer_one);
   while (!stop_loop) {
     dcg(&n_, x.Data(), y.data(), &rci_request_, ipar_.Data(), dpar_.Data(),
         tmp_.Data());
@@ -173,11 +174,9 @@ inline il::Array<double> Cg<double>::Solve(const il::Array<double>& y, il::io_t,
                 dpar_.data(), tmp_.data(), &nb_iterations);
         nb_iterations_ = nb_iterations;
 
-        double norm_residual = std::sqrt(dpar_[4]);
-        if (norm_residual <=
-            relative_precision_ * std::sqrt(dpar_[2]) + absolute_precision_) {
-          norm_residual_ = norm_residual;
-          has_converged = true;
+        norm_residual_ = dnrm2(&n_, tmp_.data() + 2 * n_, &integer_one);
+        if (norm_residual_ <=
+            relative_precision_ * norm_y + absolute_precision_) {
           stop_loop = true;
         } else if (nb_iterations_ == max_nb_iterations_) {
           max_nb_iterations_reached = true;
@@ -324,7 +323,8 @@ inline void Cg<double>::Next() {
                 dpar_.data(), tmp_.data(), &nb_iterations);
         nb_iterations_ = nb_iterations;
 
-        norm_residual_ = std::sqrt(dpar_[4]);
+        const MKL_INT integer_one = 1;
+        norm_residual_ = dnrm2(&n_, tmp_.data() + 2 * n_, &integer_one);
         if (nb_iterations_ == initial_nb_iterations + 1) {
           stop_loop = true;
         }
-- 
2.43.0


From 92f5505592b17f0f2ef750cd88e6e474d26c2a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 143/169] fix: Gmres reports when the precision has not been
 reached

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 8e51d5f..c93f18e 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -419,6 +419,7 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
                 dpar_.Data(), tmp_.Data());
   IL_EXPECT_FAST(RCI_request_ == 0);
   bool stop_iteration = false;
+  bool has_converged = false;
   double y_norm = dnrm2(&n_, yloc_.data(), &one_int);
   while (!stop_iteration) {
     // The beginning of the iteration
@@ -463,6 +464,7 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
         double norm_residual = dnrm2(&n_, residual_.data(), &one_int);
         double error_ratio = norm_residual / y_norm;
         if (norm_residual <= relative_precision * y_norm) {
+          has_converged = true;
           stop_iteration = true;
         }
       } break;
@@ -498,7 +500,25 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
               dpar_.data(), tmp_.Data(), &itercount);
 
   nb_iterations_ = itercount;
-  status.SetOk();
+  if (!has_converged) {
+    // The iterations have been stopped by their number or because the next
+    // generated vector is zero. The true residual tells if x is a solution.
+    for (il::int_t i = 0; i < n_; ++i) {
+      residual_[i] = 0.0;
+    }
+    (*m_)(il::ArrayView<double>{x.data(), n_}, il::io, residual_.Edit());
+    daxpy(&n_, &minus_one_double, y.data(), &one_int, residual_.Data(),
+          &one_int);
+    has_converged = dnrm2(&n_, residual_.data(), &one_int) <=
+                    relative_precision * y_norm;
+  }
+
+  if (has_converged) {
+    status.SetOk();
+  } else {
+    status.SetError(il::Error::Undefined);
+    IL_SET_SOURCE(status);
+  }
 }
 
 template <typename T>
-- 
2.43.0


From 9fc71379ac65660090a75586e41de10a675403b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 144/169] fix: the solution of Gmres is right after a restart

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index c93f18e..7d85bf4 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -332,10 +332,7 @@ template <typename T>
 void Gmres<T>::getSolution(il::io_t, il::ArrayEdit<double> x) {
   ipar_[12] = 1;
   int itercount;
-  for (il::int_t i = 0; i < n_; ++i) {
-    x[i] = 0.0;
-  }
-  dfgmres_get(&n_, x.Data(), x.Data(), &RCI_request_, ipar_.data(),
+  dfgmres_get(&n_, x_.Data(), x.Data(), &RCI_request_, ipar_.data(),
               dpar_.data(), tmp_.Data(), &itercount);
 }
 
-- 
2.43.0


From 5a272b8e72b7aadd7f13374bf44e39952abfda23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 145/169] fix: Gmres with a preconditioner has a maximum number
 of iterations

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 7d85bf4..a7d66de 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -131,6 +131,7 @@ Gmres<T>::Gmres(const il::FunctorArray<T>& m, const il::FunctorArray<T>& cond,
 
   n_ = m.size(1);
   restart_iteration_ = restart_iteration;
+  max_nb_iterations_ = 100;
   const il::int_t tmp_size = (2 * restart_iteration_ + 1) * n_ +
                              restart_iteration_ * (restart_iteration_ + 9) / 2 +
                              1;
-- 
2.43.0


From 97b8d2af976d3bda52860fb7dff4cdb6be3ad847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 146/169] fix: Gmres does not start from the former content of
 the solution

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index a7d66de..a853a31 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -350,6 +350,7 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
   IL_EXPECT_FAST(x.size() == n_);
 
   for (il::int_t i = 0; i < n_; ++i) {
+    x[i] = 0.0;
     yloc_[i] = y[i];
     ycopy_[i] = y[i];
   }
-- 
2.43.0


From 642d1d03107c6ebcb18c2c7c2e79ba0ae44d88ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 147/169] fix: a step of Gmres that finds the solution exactly
 gives its residual

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index a853a31..4c773e0 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -243,8 +243,7 @@ void Gmres<T>::Next() {
   const int one_int = 1;
   const double minus_one_double = -1.0;
   bool stop_iteration = false;
-  double y_norm = dnrm2(&n_, yloc_.data(), &one_int);
-  int itercount = static_cast<il::int_t>(nb_iterations_);
+  int itercount = static_cast<int>(nb_iterations_);
   int begin_itercount = itercount;
 
   while (!stop_iteration) {
@@ -318,6 +317,18 @@ void Gmres<T>::Next() {
         // computational errors. The norm is contained in DPAR(7)
         // parameter
         if (dpar_[6] == 0.0) {
+          // The solution is exact
+          ipar_[12] = 1;
+          dfgmres_get(&n_, x_.Data(), ycopy_.Data(), &RCI_request_,
+                      ipar_.data(), dpar_.data(), tmp_.Data(), &itercount);
+          il::ArrayEdit<double> my_y = residual_.Edit();
+          for (il::int_t i = 0; i < n_; ++i) {
+            my_y[i] = 0.0;
+          }
+          (*m_)(ycopy_.view(), il::io, my_y);
+          daxpy(&n_, &minus_one_double, yloc_.data(), &one_int,
+                residual_.Data(), &one_int);
+          norm_residual_ = dnrm2(&n_, residual_.data(), &one_int);
           stop_iteration = true;
         }
         break;
-- 
2.43.0


From 5223e2c0ca6b4cf31552b82dc67c6555a9d01c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 148/169] fix: Gmres.h includes what it uses

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 4c773e0..b8ca637 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -19,8 +19,10 @@
 #ifndef IL_GMRES_H
 #define IL_GMRES_H
 
+#include <il/Array.h>
 #include <il/ArrayView.h>
 #include <il/StaticArray.h>
+#include <il/Status.h>
 
 #include "mkl_blas.h"
 #include "mkl_rci.h"
-- 
2.43.0


From b2be5365897a2d5a0088a8e1c99043393092b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 149/169] fix: Pardiso factorizes the matrix when its
 iterations break down

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index ce56a1d..e83c15b 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -382,10 +382,21 @@ inline il::Array<double> Pardiso::SolveIterative(
       &n_, A.elementData(), A.rowData(), A.columnData(), &i_dummy,
       &pardiso_nrhs_, pardiso_iparm_, &pardiso_msglvl_,
       const_cast<double *>(y.data()), x.Data(), &error);
-  IL_EXPECT_FAST(error == 0);
-
   pardiso_iparm_[3] = old_solver;
 
+  if (error != 0) {
+    // The iterations have broken down (which they do for a right-hand side of
+    // 0): factorize the matrix and solve the system directly
+    const il::int_t phase_direct = 23;
+    error = 0;
+    PardisoSizeIntSelector<il::int_t>::pardiso_int_t(
+        pardiso_pt_, &pardiso_max_fact_, &pardiso_mnum_, &pardiso_mtype_,
+        &phase_direct, &n_, A.elementData(), A.rowData(), A.columnData(),
+        &i_dummy, &pardiso_nrhs_, pardiso_iparm_, &pardiso_msglvl_,
+        const_cast<double *>(y.data()), x.Data(), &error);
+    IL_EXPECT_FAST(error == 0);
+  }
+
   return x;
 }
 
-- 
2.43.0


From 08109ae38d05f71502a79f3942d31cab933fbb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 150/169] fix: il::print writes text with null characters

---
 il/io/format/formatIL.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/format/formatIL.h b/il/io/format/formatIL.h
index 40b3f9e..16a7589 100644
--- a/il/io/format/formatIL.h
+++ b/il/io/format/formatIL.h
@@ -38,7 +38,7 @@ il::String format(Args&&... args) {
 template <typename... Args>
 void print(Args&&... args) {
   std::string s = fmt::format(args...);
-  std::printf("%s", s.data());
+  std::fwrite(s.data(), 1, s.size(), stdout);
 }
 
 
-- 
2.43.0


From 500193be87233ece1bc40ffa64db50130ffd8974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:12 +0000
Subject: [PATCH 151/169] fix: floating-point numbers aligned to the left are
 padded with the fill character

---
 il/io/format/format.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/il/io/format/format.h b/il/io/format/format.h
index 6a4d571..1fb515b 100644
--- a/il/io/format/format.h
+++ b/il/io/format/format.h
@@ -3104,6 +3104,11 @@ void BasicWriter<Char>::write_double(T value, const Spec &spec) {
       buffer_.Reserve(buffer_.capacity() + 1);
     }
   }
+  if (spec.align() == ALIGN_LEFT) {
+    for (Char *end = start + n; end != start && *(end - 1) == ' '; --end) {
+      *(end - 1) = fill;
+    }
+  }
   if (sign) {
     if ((spec.align() != ALIGN_RIGHT && spec.align() != ALIGN_DEFAULT) ||
         *start != ' ') {
-- 
2.43.0


From e8d312076958266b723464f2d16d028ba31e071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 152/169] fix: centered floating-point numbers survive the
 growth of the buffer

---
 il/io/format/format.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/io/format/format.h b/il/io/format/format.h
index 1fb515b..50d4246 100644
--- a/il/io/format/format.h
+++ b/il/io/format/format.h
@@ -3121,7 +3121,11 @@ void BasicWriter<Char>::write_double(T value, const Spec &spec) {
   }
   if (spec.align() == ALIGN_CENTER && spec.width() > n) {
     width = spec.width();
-    CharPtr p = grow_buffer(width);
+    // The number must be in the buffer when it grows for the padding
+    std::size_t begin = buffer_.size();
+    grow_buffer(n);
+    grow_buffer(width - n);
+    CharPtr p = internal::make_ptr(&buffer_[begin], width);
     std::memmove(get(p) + (width - n) / 2, get(p), n * sizeof(Char));
     fill_padding(p, spec.width(), n, fill);
     return;
-- 
2.43.0


From c1d18c406fec1ac6f0917fc22d72705c974793f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 153/169] fix: arrays whose element type numpy files do not
 describe are reported on saving

---
 il/io/numpy/numpy.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index e4210f8..2f6fb2b 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -218,6 +218,12 @@ bool numpyDataIsPresent(const NumpyInfo& numpy_info, il::int_t element_size,
 
 void saveNumpyInfo(const NumpyInfo& numpy_info, il::io_t, std::FILE* fp,
                    il::Status& status) {
+  if (numpy_info.type.isEmpty()) {
+    status.SetError(il::Error::Unimplemented);
+    IL_SET_SOURCE(status);
+    return;
+  }
+
   il::String header{};
   header.Append("{'descr': '");
   // Little endian
-- 
2.43.0


From 8040ccd0c4fce375048a5322a048caf379160383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 154/169] fix: a memory buffer whose text was moved away can be
 written to again

---
 il/io/format/format.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/io/format/format.h b/il/io/format/format.h
index 50d4246..f9b96d1 100644
--- a/il/io/format/format.h
+++ b/il/io/format/format.h
@@ -763,7 +763,9 @@ class MemoryBuffer : private Allocator, public Buffer<T> {
       // Set pointer to the inline array so that delete is not called
       // when deallocating.
       other.ptr_ = other.data_;
+      other.capacity_ = SIZE;
     }
+    other.size_ = 0;
   }
 
  public:
-- 
2.43.0


From 73665b86860a72d8c55ba81e089fcbc64e35133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 155/169] fix: benchmarks divide the time of their last run by
 the iterations of that run

---
 il/benchmark/tools/timer/Benchmark.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/il/benchmark/tools/timer/Benchmark.h b/il/benchmark/tools/timer/Benchmark.h
index 16cf34b..c02743e 100644
--- a/il/benchmark/tools/timer/Benchmark.h
+++ b/il/benchmark/tools/timer/Benchmark.h
@@ -39,6 +39,7 @@ class BStateShort {
 template <typename P>
 double benchmark_short(const P &program, double time_goal = 1.0) {
   double total_time = 0.0;
+  double time = 0.0;
   il::int_t nb_iterations = 1;
 
   il::int_t count = 0;
@@ -54,15 +55,16 @@ double benchmark_short(const P &program, double time_goal = 1.0) {
         1.0e-9 *
         (1 + std::chrono::duration_cast<std::chrono::nanoseconds>(end - begin)
                  .count());
+    time = total_time / nb_iterations;
     const il::int_t estimated_nb_iterations{
-        static_cast<il::int_t>(time_goal / (total_time / nb_iterations))};
+        static_cast<il::int_t>(time_goal / time)};
     nb_iterations = estimated_nb_iterations <= growth_factor * nb_iterations
                         ? estimated_nb_iterations
                         : growth_factor * nb_iterations;
     ++count;
   }
 
-  return total_time / nb_iterations;
+  return time;
 }
 
 class BState {
@@ -109,6 +111,7 @@ class BState {
 template <typename P>
 double benchmark(const P &program, double time_goal = 1.0) {
   double total_time = 0.0;
+  double time = 0.0;
   il::int_t nb_iterations = 1;
 
   il::int_t count = 0;
@@ -119,15 +122,16 @@ double benchmark(const P &program, double time_goal = 1.0) {
     il::BState state{nb_iterations};
     program(il::io, state);
     total_time = nb_iterations * (1.0e-9 + state.time());
+    time = total_time / nb_iterations;
     const il::int_t estimated_nb_iterations{
-        static_cast<il::int_t>(time_goal / (total_time / nb_iterations))};
+        static_cast<il::int_t>(time_goal / time)};
     nb_iterations = estimated_nb_iterations <= growth_factor * nb_iterations
                         ? estimated_nb_iterations
                         : growth_factor * nb_iterations;
     ++count;
   }
 
-  return total_time / nb_iterations;
+  return time;
 }
 
 template <typename T>
-- 
2.43.0


From 43d7e7d0ace6501350d988dc80f015dd5d44c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 156/169] fix: elements added by resizing a 3D or 4D array
 within its capacity keep the debug mark

---
 il/container/3d/Array3C.h | 12 ++++++------
 il/container/3d/Array3D.h | 12 ++++++------
 il/container/4d/Array4C.h | 20 ++++++++++----------
 il/container/4d/Array4D.h | 20 ++++++++++----------
 4 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index ade7af2..62aa51c 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -1056,12 +1056,12 @@ void Array3C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
           }
         }
       }
-    }
-    for (il::int_t i0 = 0; i0 < n0; ++i0) {
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0; i2 < n2;
-             ++i2) {
-          new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2) T{};
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
+        for (il::int_t i1 = 0; i1 < n1; ++i1) {
+          for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0;
+               i2 < n2; ++i2) {
+            new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2) T{};
+          }
         }
       }
     }
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index ec45bca..7e323f7 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -1058,12 +1058,12 @@ void Array3D<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
           }
         }
       }
-    }
-    for (il::int_t i2 = 0; i2 < n2; ++i2) {
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i0 = (i2 < n2_old && i1 < n1_old) ? n0_old : 0; i0 < n0;
-             ++i0) {
-          new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0) T{};
+      for (il::int_t i2 = 0; i2 < n2; ++i2) {
+        for (il::int_t i1 = 0; i1 < n1; ++i1) {
+          for (il::int_t i0 = (i2 < n2_old && i1 < n1_old) ? n0_old : 0;
+               i0 < n0; ++i0) {
+            new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0) T{};
+          }
         }
       }
     }
diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index f56bb59..2ce6d1f 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -874,16 +874,16 @@ void Array4C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2,
           }
         }
       }
-    }
-    for (il::int_t i0 = 0; i0 < n0; ++i0) {
-      for (il::int_t i1 = 0; i1 < n1; ++i1) {
-        for (il::int_t i2 = 0; i2 < n2; ++i2) {
-          for (il::int_t i3 =
-                   (i0 < n0_old && i1 < n1_old && i2 < n2_old) ? n3_old : 0;
-               i3 < n3; ++i3) {
-            new (data_ +
-                 ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) +
-                 i3) T{};
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
+        for (il::int_t i1 = 0; i1 < n1; ++i1) {
+          for (il::int_t i2 = 0; i2 < n2; ++i2) {
+            for (il::int_t i3 =
+                     (i0 < n0_old && i1 < n1_old && i2 < n2_old) ? n3_old : 0;
+                 i3 < n3; ++i3) {
+              new (data_ +
+                   ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) +
+                   i3) T{};
+            }
           }
         }
       }
diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index 66dfa24..e92c868 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -870,16 +870,16 @@ void Array4D<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2,
           }
         }
       }
-    }
-    for (il::int_t i3 = 0; i3 < n3; ++i3) {
-      for (il::int_t i2 = 0; i2 < n2; ++i2) {
-        for (il::int_t i1 = 0; i1 < n1; ++i1) {
-          for (il::int_t i0 =
-                   (i3 < n3_old && i2 < n2_old && i1 < n1_old) ? n0_old : 0;
-               i0 < n0; ++i0) {
-            new (data_ +
-                 ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) +
-                 i0) T{};
+      for (il::int_t i3 = 0; i3 < n3; ++i3) {
+        for (il::int_t i2 = 0; i2 < n2; ++i2) {
+          for (il::int_t i1 = 0; i1 < n1; ++i1) {
+            for (il::int_t i0 =
+                     (i3 < n3_old && i2 < n2_old && i1 < n1_old) ? n0_old : 0;
+                 i0 < n0; ++i0) {
+              new (data_ +
+                   ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) +
+                   i0) T{};
+            }
           }
         }
       }
-- 
2.43.0


From a8c54ee9d23d0b8353ea0dd090875d908508c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 157/169] fix: positions remembered before a map was cleared
 are refused in checked builds

---
 il/container/hash/Map.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index e089ac6..b2c65ce 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -1033,6 +1033,9 @@ void Map<K, V, F>::Clear() {
   }
   nb_elements_ = 0;
   nb_tombstones_ = 0;
+#ifdef IL_DEBUG_CLASS
+  hash_ = 2 * hash_ + 1;
+#endif
 }
 
 template <typename K, typename V, typename F>
-- 
2.43.0


From 8064432603f484a27cef0a521044759e75771535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 158/169] fix: in checked builds, map positions remembered
 before an insertion, an erasure or a reservation are always refused

---
 il/container/hash/Map.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index b2c65ce..d05991d 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -659,7 +659,7 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
 
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
+  hash_ += 1 + F::hash((bucket_ + i_local)->key, p_);
   i.signature = hash_;
 #endif
 }
@@ -696,7 +696,7 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
+  hash_ += 1 + F::hash((bucket_ + i_local)->key, p_);
   i.signature = hash_;
 #endif
 }
@@ -731,7 +731,7 @@ void Map<K, V, F>::Set(const K& key, const V& value, il::io_t, il::spot_t& i) {
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
+  hash_ += 1 + F::hash((bucket_ + i_local)->key, p_);
   i.signature = hash_;
 #endif
 }
@@ -766,7 +766,7 @@ void Map<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
+  hash_ += 1 + F::hash((bucket_ + i_local)->key, p_);
   i.signature = hash_;
 #endif
 }
@@ -801,7 +801,7 @@ void Map<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
+  hash_ += 1 + F::hash((bucket_ + i_local)->key, p_);
   i.signature = hash_;
 #endif
 }
@@ -836,7 +836,7 @@ void Map<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   ++nb_elements_;
   i.index = i_local;
 #ifdef IL_DEBUG_CLASS
-  hash_ += F::hash((bucket_ + i_local)->key, p_);
+  hash_ += 1 + F::hash((bucket_ + i_local)->key, p_);
   i.signature = hash_;
 #endif
 }
@@ -849,7 +849,7 @@ void Map<K, V, F>::erase(il::spot_t i) {
   IL_EXPECT_FAST(found(i));
 
 #ifdef IL_DEBUG_CLASS
-  hash_ -= F::hash((bucket_ + i.index)->key, p_);
+  hash_ += 1 + F::hash((bucket_ + i.index)->key, p_);
 #endif
   (&((bucket_ + i.index)->key))->~K();
   F::constructTombstone(il::io, reinterpret_cast<K*>(bucket_ + i.index));
@@ -1108,6 +1108,9 @@ void Map<K, V, F>::ReserveWithP(int p) {
 #endif
   nb_elements_ = 0;
   nb_tombstones_ = 0;
+#ifdef IL_DEBUG_CLASS
+  ++hash_;
+#endif
 
   if (p_ >= 0) {
     for (il::int_t i = 0; i < old_m; ++i) {
-- 
2.43.0


From 7f2d337e2dae4aa61e1006bca11742dde58549b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 159/169] fix: the gdb printer of array views no longer asks
 for a capacity views do not have

---
 prettyPrint/gdb/printers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prettyPrint/gdb/printers.py b/prettyPrint/gdb/printers.py
index 1055342..9188221 100644
--- a/prettyPrint/gdb/printers.py
+++ b/prettyPrint/gdb/printers.py
@@ -154,7 +154,7 @@ class ArrayViewPrinter:
 			yield ("[%s]" % k), item
 
 	def to_string(self):
-		return "[size: %s], [capacity: %s]" % (self.size, self.capacity)
+		return "[size: %s]" % (self.size)
 
 class Array2DPrinter:
 	def __init__(self, val):
-- 
2.43.0


From a37c0471683614acb82c4b23a58bc7ba6f723b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 160/169] fix: the gdb printer of triangular matrices works
 with Python 3

---
 prettyPrint/gdb/printers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prettyPrint/gdb/printers.py b/prettyPrint/gdb/printers.py
index 9188221..c8b7f29 100644
--- a/prettyPrint/gdb/printers.py
+++ b/prettyPrint/gdb/printers.py
@@ -324,7 +324,7 @@ class LowerArray2DPrinter:
 		self.innerType = self.type.template_argument(0)
 		self.val = val
 		self.data = self.val['data_'].cast(self.innerType.pointer())
-		self.size = self.val['size_'] - self.data
+		self.size = int(self.val['size_'] - self.data)
 		self.capacity = self.val['capacity_'] - self.data
 
 	def children(self):
-- 
2.43.0


From 3869c0fbfc85f9a7c9e71bfa0457fe0ccfb27221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 161/169] fix: the gdb printer of tridiagonal matrices has a
 summary and labels the first and last rows properly

---
 prettyPrint/gdb/printers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prettyPrint/gdb/printers.py b/prettyPrint/gdb/printers.py
index c8b7f29..02260b5 100644
--- a/prettyPrint/gdb/printers.py
+++ b/prettyPrint/gdb/printers.py
@@ -302,6 +302,7 @@ class TriDiagonalPrinter:
 		dataPtr = self.data
 		if self.size > 0:
 			yield ("[%s, %s]" % (0, 0)), (dataPtr + self.size).dereference()
+		if self.size > 1:
 			yield ("[%s, %s]" % (0, 1)), (dataPtr + 2 * self.size).dereference()
 		for i in range(1, self.size - 1):
 			yield ("[%s, %s]" % (i, i - 1)), (dataPtr + i).dereference()
@@ -309,11 +310,11 @@ class TriDiagonalPrinter:
 			yield ("[%s, %s]" % (i, i + 1)), (dataPtr + 2 * self.size + i).dereference()
 		if self.size > 1:
 			i = self.size - 1
+			yield ("[%s, %s]" % (i, i - 1)), (dataPtr + i).dereference()
 			yield ("[%s, %s]" % (i, i)), (dataPtr + self.size + i).dereference()
-			yield ("[%s, %s]" % (i, i + 1)), (dataPtr + 2 * self.size + i).dereference()
 
 	def to_string(self):
-		return "[size0: %s], [size1: %s], [capacity0: %s], [capacity1: %s]" % (self.size0, self.size1, self.capacity0, self.capacity1)
+		return "[size: %s]" % (self.size)
 
 class LowerArray2DPrinter:
 	def __init__(self, val):
-- 
2.43.0


From 4218f8e2f6e1bb757ed1cc3ff11144b8bad71949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 162/169] fix: the gdb printer of sparse matrices reads the
 elements and the indices with their own types and skips empty rows

---
 prettyPrint/gdb/printers.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/prettyPrint/gdb/printers.py b/prettyPrint/gdb/printers.py
index 02260b5..4cbdae0 100644
--- a/prettyPrint/gdb/printers.py
+++ b/prettyPrint/gdb/printers.py
@@ -346,7 +346,7 @@ class SparseMatrixCSRPrinter:
 		if type.code == gdb.TYPE_CODE_REF:
 			type = type.target()
 		self.type = type.unqualified().strip_typedefs()
-		self.innerType = self.type.template_argument(0)
+		self.innerType = self.type.template_argument(1)
 		self.val = val
 		self.size0 = self.val['n0_']
 		self.size1 = self.val['n1_']
@@ -357,21 +357,20 @@ class SparseMatrixCSRPrinter:
 		yield "nb_cols", self.size1
 		yield "nb_nonzeros", self.non_zeros
 		elementPtr = self.val['element_']['data_'].cast(self.innerType.pointer())
-		int_pointer_type = gdb.lookup_type('int').pointer()
+		int_pointer_type = self.type.template_argument(0).pointer()
 		rowPtr = self.val['row_']['data_'].cast(int_pointer_type)
 		columnPtr = self.val['column_']['data_'].cast(int_pointer_type)
 		i = 0
 		j = 0
 		for k in range(0, self.non_zeros):
+			while j >= (rowPtr + 1).dereference():
+				rowPtr += 1
+				i += 1
 			item = elementPtr.dereference()
 			yield ("[%s, %s]" % (i, columnPtr.dereference())), item
 			elementPtr += 1
 			columnPtr += 1
 			j += 1
-			if j >= (rowPtr + 1).dereference():
-				rowPtr += 1
-				i += 1
-
 
 	def to_string(self):
 		return "[size0: %s], [size1: %s]" % (self.size0, self.size1)
-- 
2.43.0


From 97f953f8bfbb6837e4d420ff9c588dfb5b6591d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 163/169] fix: the gdb printers of strings show the type, the
 size and the whole text of every string

---
 prettyPrint/gdb/printers.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/prettyPrint/gdb/printers.py b/prettyPrint/gdb/printers.py
index 4cbdae0..ebe6283 100644
--- a/prettyPrint/gdb/printers.py
+++ b/prettyPrint/gdb/printers.py
@@ -546,8 +546,8 @@ class StringViewPrinter:
 		self.val = val
 		self.size = self.val['size_'] - self.val['data_']
 		self.string = ""
-		for k in range(0, self.size):
-			self.string += chr(self.val['data_'][k])
+		if self.size > 0:
+			self.string = self.val['data_'].string('utf-8', 'replace', int(self.size))
 
 	def to_string(self):
 		return "\"%s\"" % self.string
@@ -555,32 +555,19 @@ class StringViewPrinter:
 class StringPrinter:
 	def __init__(self, val):
 		self.val = val
-		n = self.val['large_']['capacity']
-		if n >= 2**63:
-			n = n - 2**63
-		if n >= 2**62:
-			n = n - 2**62
-			if (n - 2**62 >= 2**61):
-				self.type = "byte"
-				n = n - 2**61
-			else:
-				self.type = "wtf8"
-		else:
-			if n >= 2**61:
-				n = n - 2**61
-				self.type = "utf8"
-			else:
-				self.type = "ascii"
+		n = int(self.val['large_']['capacity'])
+		self.type = ["ascii", "utf8", "wtf8", "byte"][(n >> 61) & 3]
+		n = n & (2**61 - 1)
 		if self.val['large_']['capacity'] >= 2**63:
 			self.is_small = False
-			self.size = self.val['large_']['size']
+			self.size = int(self.val['large_']['size'])
 			self.capacity = 8 * n
-			self.string = self.val['large_']['data'].string()
+			self.string = self.val['large_']['data'].string('utf-8', 'replace', self.size)
 		else:
 			self.is_small = True
 			self.size = int(self.val['small_'][23]) % 32
 			self.capacity = 22
-			self.string = self.val['small_'].string()
+			self.string = self.val['small_'].string('utf-8', 'replace', self.size)
 
 	def to_string(self):
 		return "[string: \"%s\"] [type: %s] [size: %s] [capacity: %s] [is small: %s]" % (self.string, self.type, self.size, self.capacity, self.is_small)
-- 
2.43.0


From df734dc69b9d3588cc8c9ae8010b01825dbf470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 164/169] fix: the gdb printer of deques tells an empty deque

---
 prettyPrint/gdb/printers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prettyPrint/gdb/printers.py b/prettyPrint/gdb/printers.py
index ebe6283..2352983 100644
--- a/prettyPrint/gdb/printers.py
+++ b/prettyPrint/gdb/printers.py
@@ -70,13 +70,13 @@ class DequePrinter:
 		self.val = val
 		self.front = self.val['front_']
 		self.back = self.val['back_']
-		if (self.front == 0 and self.back == -1):
+		if self.front == -1:
 			self.size = 0
 		elif self.front <= self.back:
 			self.size = self.back - self.front + 1
 		else:
 			self.size = self.back - self.front + 1 + self.val['data_']['size_'] - self.val['data_']['data_']
-		self.capacity = self.val['data_']['capacity_'] - self.val['data_']['data_']
+		self.capacity = self.val['data_']['size_'] - self.val['data_']['data_']
 		self.data = self.val['data_']['data_'].cast(self.innerType.pointer())
 
 	def children(self):
-- 
2.43.0


From dfd7d93cdd19dc13b3d0e226d5e9947470215c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 165/169] fix: the gdb printer of Dynamic shows the value that
 is stored

---
 prettyPrint/gdb/printers.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/prettyPrint/gdb/printers.py b/prettyPrint/gdb/printers.py
index 2352983..3adcad6 100644
--- a/prettyPrint/gdb/printers.py
+++ b/prettyPrint/gdb/printers.py
@@ -643,15 +643,20 @@ class DynamicPrinter:
 
 	def children(self):
 		yield "type", self.type
-		type_id = gdb.parse_and_eval("static_cast<unsigned char>(" + str(self.type) + ")")
-		if type_id == 2:
-			yield "value", self.val['integer_val_']
-		if type_id == 3:
-			yield "value", self.val['float_val_']
-		if type_id == 4:
-			yield "value", self.val['double_val_']
-		if type_id == 5:
-			yield "value", self.val['string_val_'].dereference()
+		# The types below 13 are stored in place, the others on the heap
+		types = {0: "bool", 1: "unsigned char", 2: "signed char",
+			3: "unsigned short", 4: "short", 5: "unsigned int", 6: "int",
+			7: "unsigned long", 8: "long", 10: "float", 11: "double",
+			13: "il::String", 14: "il::Array<il::Dynamic>",
+			15: "il::Map<il::String, il::Dynamic, il::HashFunction<il::String> >",
+			16: "il::MapArray<il::String, il::Dynamic, il::HashFunction<il::String> >"}
+		type_id = int(self.type)
+		if type_id in types:
+			type = gdb.lookup_type(types[type_id])
+			if type_id < 13:
+				yield "value", self.val['data_'].address.cast(type.pointer()).dereference()
+			else:
+				yield "value", self.val['data_'].cast(type.pointer()).dereference()
 
 class StatusPrinter:
 	def __init__(self, val):
-- 
2.43.0


From 945708682371cef224d491e924dd88b6860ca502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 166/169] fix: the gdb printer of Info shows the texts of small
 objects and the floating point numbers of large ones

---
 prettyPrint/gdb/printers.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/prettyPrint/gdb/printers.py b/prettyPrint/gdb/printers.py
index 3adcad6..4f89386 100644
--- a/prettyPrint/gdb/printers.py
+++ b/prettyPrint/gdb/printers.py
@@ -720,10 +720,7 @@ class InfoPrinter:
 				yield key, value.cast(type)
 			elif type == 1:
 				type = gdb.lookup_type("double")
-				if self.is_small:
-					my_val = gdb.parse_and_eval("*(double *)(((unsigned char*)(" + str(self.data.address) + ")) + " + str(k) + ")")
-				else:
-					my_val = gdb.parse_and_eval("*(double*)(((unsigned char*) (*" + str(self.data.address) + ")) + " + str(k) + ")")
+				my_val = self.data[k].address.cast(type.pointer()).dereference()
 				k += 8
 				yield key, my_val
 			elif type == 2:
@@ -733,7 +730,7 @@ class InfoPrinter:
 					k += 1
 					char = chr(self.data[k])
 				k += 1
-				yield key, self.data + begin
+				yield key, self.data[begin].address
 			elif type == 3:
 				type = gdb.lookup_type("int")
 				value = 0
-- 
2.43.0


From 2f96ba15e79cc5650e76004dae16931ef6db042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 167/169] Revert "fix: benchmarks divide the time of their last
 run by the iterations of that run"

il/benchmark is part of the benchmarks, which stay as they are
---
 il/benchmark/tools/timer/Benchmark.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/il/benchmark/tools/timer/Benchmark.h b/il/benchmark/tools/timer/Benchmark.h
index c02743e..16cf34b 100644
--- a/il/benchmark/tools/timer/Benchmark.h
+++ b/il/benchmark/tools/timer/Benchmark.h
@@ -39,7 +39,6 @@ class BStateShort {
 template <typename P>
 double benchmark_short(const P &program, double time_goal = 1.0) {
   double total_time = 0.0;
-  double time = 0.0;
   il::int_t nb_iterations = 1;
 
   il::int_t count = 0;
@@ -55,16 +54,15 @@ double benchmark_short(const P &program, double time_goal = 1.0) {
         1.0e-9 *
         (1 + std::chrono::duration_cast<std::chrono::nanoseconds>(end - begin)
                  .count());
-    time = total_time / nb_iterations;
     const il::int_t estimated_nb_iterations{
-        static_cast<il::int_t>(time_goal / time)};
+        static_cast<il::int_t>(time_goal / (total_time / nb_iterations))};
     nb_iterations = estimated_nb_iterations <= growth_factor * nb_iterations
                         ? estimated_nb_iterations
                         : growth_factor * nb_iterations;
     ++count;
   }
 
-  return time;
+  return total_time / nb_iterations;
 }
 
 class BState {
@@ -111,7 +109,6 @@ class BState {
 template <typename P>
 double benchmark(const P &program, double time_goal = 1.0) {
   double total_time = 0.0;
-  double time = 0.0;
   il::int_t nb_iterations = 1;
 
   il::int_t count = 0;
@@ -122,16 +119,15 @@ double benchmark(const P &program, double time_goal = 1.0) {
     il::BState state{nb_iterations};
     program(il::io, state);
     total_time = nb_iterations * (1.0e-9 + state.time());
-    time = total_time / nb_iterations;
     const il::int_t estimated_nb_iterations{
-        static_cast<il::int_t>(time_goal / time)};
+        static_cast<il::int_t>(time_goal / (total_time / nb_iterations))};
     nb_iterations = estimated_nb_iterations <= growth_factor * nb_iterations
                         ? estimated_nb_iterations
                         : growth_factor * nb_iterations;
     ++count;
   }
 
-  return time;
+  return total_time / nb_iterations;
 }
 
 template <typename T>
-- 
2.43.0


From 15b3c9995486ed33c285c0e771c611197a14e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 168/169] fix: appending to a 16-bit string uses the room that
 has been reserved

Append asked for twice the size of the string even when its capacity was
sufficient: every single append replaced the storage, also right after a
Reserve.
---
 il/container/string/UTF16String.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index f72df17..b28b64e 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -258,7 +258,8 @@ inline void UTF16String::Append(char c) {
 
   const il::int_t old_size = size();
   const il::int_t new_size = old_size + 1;
-  const il::int_t new_capacity = il::max(new_size, 2 * old_size);
+  const il::int_t new_capacity =
+      new_size <= capacity() ? new_size : il::max(new_size, 2 * old_size);
   Reserve(new_capacity);
   unsigned short* data = Data() + old_size;
   data[0] = static_cast<unsigned short>(c);
@@ -276,7 +277,8 @@ inline void UTF16String::Append(il::int_t n, char c) {
 
   const il::int_t old_size = size();
   const il::int_t new_size = old_size + n;
-  const il::int_t new_capacity = il::max(new_size, 2 * old_size);
+  const il::int_t new_capacity =
+      new_size <= capacity() ? new_size : il::max(new_size, 2 * old_size);
   Reserve(new_capacity);
   unsigned short* data = Data() + old_size;
   for (il::int_t i = 0; i < n; ++i) {
@@ -298,14 +300,16 @@ inline void UTF16String::Append(int cp) {
   il::int_t new_size;
   if (ucp < 0x00010000u) {
     new_size = old_size + 1;
-    const il::int_t new_capacity = il::max(new_size, 2 * old_size);
+    const il::int_t new_capacity =
+        new_size <= capacity() ? new_size : il::max(new_size, 2 * old_size);
     Reserve(new_capacity);
     unsigned short* data = Data() + size();
     data[0] = static_cast<unsigned short>(ucp);
     data[1] = static_cast<unsigned short>('\0');
   } else {
     new_size = old_size + 2;
-    const il::int_t new_capacity = il::max(new_size, 2 * old_size);
+    const il::int_t new_capacity =
+        new_size <= capacity() ? new_size : il::max(new_size, 2 * old_size);
     Reserve(new_capacity);
     unsigned short* data = Data() + size();
     const unsigned int a = ucp - 0x00010000u;
@@ -415,7 +419,9 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
   IL_EXPECT_AXIOM("data must point to an array of length at least n");
 
   const il::int_t old_size = size();
-  const il::int_t new_capacity = il::max(old_size + n, 2 * old_size);
+  const il::int_t new_size = old_size + n;
+  const il::int_t new_capacity =
+      new_size <= capacity() ? new_size : il::max(new_size, 2 * old_size);
   Reserve(new_capacity);
 
   if (isSmall()) {
-- 
2.43.0


From 1c0d9c7d8cf0a466e3d515a5bfba5b0b5f95dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:54 +0000
Subject: [PATCH 169/169] fix: a string that grows by appending takes at least
 twice its former capacity

The storage was replaced every 8 characters, so that building a text by
appending, as saving to a TOML file does, took quadratic time.
---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 546cef9..c3b8fc6 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1034,7 +1034,7 @@ inline void String::Grow(il::unsafe_t, il::int_t n_to_copy, il::int_t n) {
   } else if (n <= old_capacity) {
     setLarge(il::StringType::Byte, n, old_capacity);
   } else {
-    const il::int_t r = nextCapacity(n);
+    const il::int_t r = nextCapacity(n > 2 * old_capacity ? n : 2 * old_capacity);
     char* p = il::allocateArray<char>(r + 1);
     std::memcpy(p, old_data, n_to_copy);
     large_.data = p;
-- 
2.43.0

